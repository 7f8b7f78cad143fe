F = "collections/guava_map.go"
M = [
 ("g-unload-twice", "G02", [(F, "	if v.cancelFn != nil {\n		v.cancelFn()\n	}\n\n	delete(", "	if v.cancelFn != nil {\n		v.cancelFn()\n	}\n	if m.unloadFunc != nil && m.maxCount > 0 {\n		go m.unloadFunc(key, v.v)\n	}\n\n	delete(")]),
 ("g-delete-absent", "G02", [(F, "	v, ok := m.stored[key]\n	if !ok {\n		return\n	}\n	if m.unloadFunc", "	v := m.stored[key]\n	if m.unloadFunc")]),
 ("g-clear-no-unload", "G02", [(F, "		for k, v := range m.stored {\n			go m.unloadFunc(k, v.v)\n		}", "		for k, v := range m.stored {\n			go m.unloadFunc(k, v.v)\n			if m.maxCount > 0 {\n				break\n			}\n		}")]),
 ("g-load-under-no-lock", "G03", [(F, "		defer m.lockLoad.Unlock(key)\n		m.mu.RLock()", "		m.mu.RLock()"), (F, "	loadedVal, err = m.loadFunc(key)\n", "	loadedVal, err = m.loadFunc(key)\n	if m.lockLoad != nil {\n		m.lockLoad.Unlock(key)\n	}\n")]),
 ("g-load-err-stored", "G03", [(F, "	if err != nil {\n		var v V\n		return v, err\n	}\n	m.mu.Lock()", "	m.mu.Lock()"), (F, "	return loadedVal, nil\n", "	return loadedVal, err\n")]),
 ("g-load-no-recheck", "G03", [(F, """		m.mu.RLock()
		val, ok = m.stored[key]
		if ok {
			if val.timer != nil && m.readTimeout > 0 {
				val.timer.Reset(m.readTimeout)
			}
			v := val.v
			m.mu.RUnlock()
			return v, nil
		}
		m.mu.RUnlock()
	}
""", "	}\n")]),
 ("g-expire-no-identity", "G04", [(F, "if m.stored[key] == res {", "if m.stored[key] != nil {")]),
 ("g-expire-outside-lock", "G04", [(F, "				m.mu.Lock()\n				if m.stored[key] == res {\n					m.safeDelete(key)\n				}\n				m.mu.Unlock()", "				m.mu.Lock()\n				same := m.stored[key] == res\n				m.mu.Unlock()\n				if same {\n					m.Delete(key)\n				}")]),
 ("g-read-timeout-on-write", "G04", [(F, "			if m.writeTimeout > 0 {\n				v.timer.Reset(m.writeTimeout)", "			if m.readTimeout == 0 {\n				v.timer.Reset(m.writeTimeout)")]),
 ("g-has-no-reset", "G04", [(F, "	v, ok := m.stored[key]\n	if ok {\n		if v.timer != nil && m.readTimeout > 0 {\n			v.timer.Reset(m.readTimeout)\n		}\n	}\n	return ok", "	_, ok := m.stored[key]\n	return ok")]),
 ("g-has-reset-write", "G04", [(F, "	v, ok := m.stored[key]\n	if ok {\n		if v.timer != nil && m.readTimeout > 0 {\n			v.timer.Reset(m.readTimeout)\n		}\n	}\n	return ok", "	v, ok := m.stored[key]\n	if ok {\n		if v.timer != nil && m.readTimeout > 0 {\n			v.timer.Reset(m.writeTimeout)\n		}\n	}\n	return ok")]),
 ("g-timer-only-write", "G04", [(F, "if m.readTimeout > 0 || m.writeTimeout > 0 {", "if m.writeTimeout > 0 {")]),
 ("g-timer-min", "G04", [(F, "		if m.writeTimeout > 0 {\n			res.timer = time.NewTimer(m.writeTimeout)", "		if m.readTimeout <= 0 {\n			res.timer = time.NewTimer(m.writeTimeout)")]),
 ("g-set-keeps-timer", "G04", [(F, "		if v.timer != nil {\n			if m.writeTimeout > 0 {\n				v.timer.Reset(m.writeTimeout)\n			} else {\n				v.timer.Reset(m.readTimeout)\n			}\n		}\n", "		if v.timer != nil && m.writeTimeout > 0 {\n			v.timer.Reset(m.writeTimeout)\n		}\n")]),
 ("g-update-lock-dropped", "G05", [(F, "	lock.refs--\n	if lock.refs == 0 {\n		delete", "	lock.refs--\n	{\n		delete")]),
 ("g-update-store-after-unlock", "G05", [(F, "	lock.Lock()\n	defer lock.Unlock()\n	res := update()\n", "	lock.Lock()\n	res := update()\n	lock.Unlock()\n")]),
 ("g-update-refs-late", "G05", [(F, "	lock.refs++\n	return lock", "	return lock"), (F, "	lock.Lock()\n	defer lock.Unlock()\n	res", "	lock.Lock()\n	defer lock.Unlock()\n	lock.refs++\n	res")]),
 ("g-update-global", "G05", [(F, "	res := update()\n	m.mu.Lock()\n	defer m.mu.Unlock()\n", "	m.mu.Lock()\n	defer m.mu.Unlock()\n	res := update()\n")]),
 ("g-clear-update-locks", "G05", [(F, "	m.stored = make(map[K]*guavaHolder[V])\n	if", "	m.stored = make(map[K]*guavaHolder[V])\n	m.updateLockMapMu.Lock()\n	m.updateLockMap = nil\n	m.updateLockMapMu.Unlock()\n	if")]),
 ("g-set-ignores-present", "G06", [(F, "		v.v = val\n		return", "		if v.timer == nil {\n			v.v = val\n		}\n		return")]),
 ("g-hasorcreate-overwrites", "G06", [(F, "		if m.stored[key].timer != nil && m.readTimeout > 0 {", "		m.stored[key].v = value\n		if m.stored[key].timer != nil && m.readTimeout > 0 {")]),
 ("g-hasorcreate-race", "G06", [(F, "	m.mu.Lock()\n	defer m.mu.Unlock()\n	_, ok := m.stored[key]\n	if !ok {\n		m.stored[key] = m.createHolder(key, value)", "	m.mu.RLock()\n	_, ok := m.stored[key]\n	m.mu.RUnlock()\n	m.mu.Lock()\n	defer m.mu.Unlock()\n	if !ok {\n		m.stored[key] = m.createHolder(key, value)")]),
 ("g-getstored-partial", "G06", [(F, "	for k, v := range m.stored {\n		resStored[k] = v.v\n	}", "	for k, v := range m.stored {\n		if v.timer != nil {\n			continue\n		}\n		resStored[k] = v.v\n	}")]),
 # behaviour kept
 ("same-g-clear-one-loop", "", [(F, """	if m.unloadFunc != nil {
		for k, v := range m.stored {
			go m.unloadFunc(k, v.v)
		}
	}
	for _, v := range m.stored {
		if v.cancelFn != nil {
			v.cancelFn()
		}
	}
""", """	for k, v := range m.stored {
		if m.unloadFunc != nil {
			go m.unloadFunc(k, v.v)
		}
		if v.cancelFn != nil {
			v.cancelFn()
		}
	}
""")]),
 ("same-g-clear-swap", "", [(F, """	if m.unloadFunc != nil {
		for k, v := range m.stored {
			go m.unloadFunc(k, v.v)
		}
	}
	for _, v := range m.stored {
		if v.cancelFn != nil {
			v.cancelFn()
		}
	}
	m.stored = make(map[K]*guavaHolder[V])
""", """	old := m.stored
	m.stored = make(map[K]*guavaHolder[V])
	for k, v := range old {
		if m.unloadFunc != nil {
			go m.unloadFunc(k, v.v)
		}
		if v.cancelFn == nil {
			continue
		}
		v.cancelFn()
	}
""")]),
 ("same-g-touch-helper", "", [(F, "func (m *GuavaMap[K, V]) Size() int {", "func (m *GuavaMap[K, V]) touch(h *guavaHolder[V]) {\n	if h.timer != nil && m.readTimeout > 0 {\n		h.timer.Reset(m.readTimeout)\n	}\n}\n\nfunc (m *GuavaMap[K, V]) Size() int {"),
   (F, "		if v.timer != nil && m.readTimeout > 0 {\n			v.timer.Reset(m.readTimeout)\n		}\n	}\n	return ok", "		m.touch(v)\n	}\n	return ok"),
   (F, "		if m.stored[key].timer != nil && m.readTimeout > 0 {\n			m.stored[key].timer.Reset(m.readTimeout)\n		}\n", "		m.touch(m.stored[key])\n"),
   (F, "		if val.timer != nil && m.readTimeout > 0 {\n			val.timer.Reset(m.readTimeout)\n		}\n", "		m.touch(val)\n")]),
 ("same-g-order-helper", "", [(F, "func (m *GuavaMap[K, V]) Size() int {", "func (m *GuavaMap[K, V]) insert(key K, h *guavaHolder[V]) {\n	if m.maxCount > 0 {\n		if len(m.storedSlice) >= m.maxCount {\n			m.safeDelete(m.storedSlice[0])\n		}\n		m.storedSlice = append(m.storedSlice, key)\n	}\n	m.stored[key] = h\n}\n\nfunc (m *GuavaMap[K, V]) Size() int {"),
   (F, "		m.stored[key] = m.createHolder(key, val)\n		if m.maxCount > 0 {\n			if len(m.storedSlice) >= m.maxCount {\n				m.safeDelete(m.storedSlice[0])\n			}\n			m.storedSlice = append(m.storedSlice, key)\n		}\n		return\n", "		m.insert(key, m.createHolder(key, val))\n		return\n"),
   (F, "		m.stored[key] = m.createHolder(key, value)\n		if m.maxCount > 0 {\n			if len(m.storedSlice) >= m.maxCount {\n				m.safeDelete(m.storedSlice[0])\n			}\n			m.storedSlice = append(m.storedSlice, key)\n		}\n", "		m.insert(key, m.createHolder(key, value))\n"),
   (F, "	if m.maxCount > 0 {\n		if len(m.storedSlice) >= m.maxCount {\n			m.safeDelete(m.storedSlice[0])\n		}\n		m.storedSlice = append(m.storedSlice, key)\n	}\n	m.stored[key] = m.createHolder(key, loadedVal)\n", "	m.insert(key, m.createHolder(key, loadedVal))\n")]),
 ("same-g-timeout-var", "", [(F, """	if m.readTimeout > 0 || m.writeTimeout > 0 {
		ctx, cancelFn""", """	timeout := m.writeTimeout
	if timeout <= 0 {
		timeout = m.readTimeout
	}
	if timeout > 0 {
		ctx, cancelFn"""), (F, """		if m.writeTimeout > 0 {
			res.timer = time.NewTimer(m.writeTimeout)
		} else {
			res.timer = time.NewTimer(m.readTimeout)
		}
""", "		res.timer = time.NewTimer(timeout)\n")]),
 ("same-g-slices-delete", "", [(F, """		for i, k := range m.storedSlice {
			if k == key {
				m.storedSlice = append(m.storedSlice[:i], m.storedSlice[i+1:]...)
				break
			}
		}
""", """		if i := slices.Index(m.storedSlice, key); i >= 0 {
			m.storedSlice = slices.Delete(m.storedSlice, i, i+1)
		}
"""), (F, '	"context"\n', '	"context"\n	"slices"\n')]),
 ("same-g-get-helper", "", [(F, "func (m *GuavaMap[K, V]) Size() int {", """func (m *GuavaMap[K, V]) peek(key K) (V, bool) {
	m.mu.RLock()
	defer m.mu.RUnlock()
	h, ok := m.stored[key]
	if !ok {
		var zero V
		return zero, false
	}
	if h.timer != nil && m.readTimeout > 0 {
		h.timer.Reset(m.readTimeout)
	}
	return h.v, true
}

func (m *GuavaMap[K, V]) Size() int {"""),
   (F, """	m.mu.RLock()
	val, ok := m.stored[key]
	if ok {
		if val.timer != nil && m.readTimeout > 0 {
			val.timer.Reset(m.readTimeout)
		}
		v := val.v
		m.mu.RUnlock()
		return v, nil
	}
	m.mu.RUnlock()
	if m.loadFunc == nil {
		var v V
		return v, nil
	}
	var err error
	var loadedVal V
""", """	if v, ok := m.peek(key); ok {
		return v, nil
	}
	if m.loadFunc == nil {
		var v V
		return v, nil
	}
"""), (F, """		m.mu.RLock()
		val, ok = m.stored[key]
		if ok {
			if val.timer != nil && m.readTimeout > 0 {
				val.timer.Reset(m.readTimeout)
			}
			v := val.v
			m.mu.RUnlock()
			return v, nil
		}
		m.mu.RUnlock()
	}
	loadedVal, err = m.loadFunc(key)
""", """		if v, found := m.peek(key); found {
			return v, nil
		}
	}
	loadedVal, err := m.loadFunc(key)
"""), (F, "	val, ok = m.stored[key]\n	if ok {", "	val, ok := m.stored[key]\n	if ok {")]),
]

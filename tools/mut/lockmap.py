L = "collections/lock_map.go"
src = open("/repo/" + L).read()
def fn(sig):
    i = src.index(sig); j = src.index("\n}\n", i) + 3
    return src[i:j]
ML = fn("func (mm *MapMutex[K]) Lock(k K)")
MU = fn("func (mm *MapMutex[K]) Unlock(k K)")
RL = fn("func (mm *MapRWMutex[K]) RLock(k K)")
RU = fn("func (mm *MapRWMutex[K]) RUnlock(k K)")
WL = fn("func (mm *MapRWMutex[K]) Lock(k K)")
WU = fn("func (mm *MapRWMutex[K]) Unlock(k K)")
RECHECK = '''		m, ok = mm.m[k]
		if !ok {
			m = &sync.Mutex{}
			mm.m[k] = m
		}
'''
M = [
 ("l1-no-recheck", "L01", [(L, ML, ML.replace(RECHECK, "\t\tm = &sync.Mutex{}\n\t\tmm.m[k] = m\n"))]),
 ("l1-lock-under-table", "L01", [(L, ML, ML.replace("\t\tmm.mu.Unlock()\n\t}\n\tm.Lock()", "\t\tm.Lock()\n\t\tmm.mu.Unlock()\n\t\treturn\n\t}\n\tm.Lock()"))]),
 ("l1-insert-under-rlock", "L01", [(L, ML, ML.replace("mm.mu.Lock()", "mm.mu.RLock()").replace("mm.mu.Unlock()", "mm.mu.RUnlock()"))]),
 ("l1-unlock-deletes", "L01", [(L, MU, MU.replace("m.Unlock()\n\t}", "m.Unlock()\n\t\tmm.mu.Lock()\n\t\tdelete(mm.m, k)\n\t\tmm.mu.Unlock()\n\t}"))]),
 ("l1-rlock-exclusive", "L01", [(L, RL, RL.replace("\tm.RLock()\n}", "\tm.Lock()\n}"))]),
 ("l1-lock-shared", "L01", [(L, WL, WL.replace("\tm.Lock()\n}", "\tm.RLock()\n}"))]),
 ("l1-trylock", "L01", [(L, WL, WL.replace("\tm.Lock()\n}", "\tif !m.TryLock() {\n\t\treturn\n\t}\n}"))]),
 ("l1-runlock-wrong", "L01", [(L, RU, RU.replace("\t\tm.RUnlock()\n", "\t\tif m.TryLock() {\n\t\t\tm.Unlock()\n\t\t} else {\n\t\t\tm.RUnlock()\n\t\t}\n"))]),
 ("l1-first-not-locked", "L01", [(L, ML, ML.replace("\t\tmm.mu.Unlock()\n\t}\n\tm.Lock()", "\t\tmm.mu.Unlock()\n\t\tif !ok {\n\t\t\treturn\n\t\t}\n\t}\n\tm.Lock()"))]),
 ("l1-limit-table", "L01", [(L, ML, ML.replace("\t\tif !ok {\n\t\t\tm = &sync.Mutex{}", "\t\tif !ok {\n\t\t\tif len(mm.m) > 100000 {\n\t\t\t\tmm.m = make(map[K]*sync.Mutex)\n\t\t\t}\n\t\t\tm = &sync.Mutex{}"))]),
 ("l1-rw-lock-norecheck", "L01", [(L, WL, WL.replace("\t\tm, ok = mm.m[k]\n\t\tif !ok {\n\t\t\tm = &sync.RWMutex{}\n\t\t\tmm.m[k] = m\n\t\t}\n", "\t\tm = &sync.RWMutex{}\n\t\tmm.m[k] = m\n"))]),
 ("same-l1-helper", "", [(L, ML, '''func (mm *MapMutex[K]) Lock(k K) {
	mm.get(k).Lock()
}

func (mm *MapMutex[K]) get(k K) *sync.Mutex {
	mm.mu.RLock()
	m, ok := mm.m[k]
	mm.mu.RUnlock()
	if ok {
		return m
	}
	mm.mu.Lock()
	defer mm.mu.Unlock()
	if m, ok = mm.m[k]; ok {
		return m
	}
	m = new(sync.Mutex)
	mm.m[k] = m
	return m
}
''')]),
 ("same-l1-onlywrite", "", [(L, ML, '''func (mm *MapMutex[K]) Lock(k K) {
	mm.mu.Lock()
	m, ok := mm.m[k]
	if !ok {
		m = &sync.Mutex{}
		mm.m[k] = m
	}
	mm.mu.Unlock()
	m.Lock()
}
''')]),
 ("same-l1-nilcheck", "", [(L, ML, '''func (mm *MapMutex[K]) Lock(k K) {
	mm.mu.RLock()
	m := mm.m[k]
	mm.mu.RUnlock()
	if m == nil {
		mm.mu.Lock()
		m = mm.m[k]
		if m == nil {
			m = &sync.Mutex{}
			mm.m[k] = m
		}
		mm.mu.Unlock()
	}
	m.Lock()
}
''')]),
 ("same-l1-unlock-defer", "", [(L, MU, '''func (mm *MapMutex[K]) Unlock(k K) {
	mm.mu.RLock()
	defer mm.mu.RUnlock()
	m, ok := mm.m[k]
	if !ok {
		return
	}
	m.Unlock()
}
''')]),
 ("same-l1-unlock-nil", "", [(L, MU, '''func (mm *MapMutex[K]) Unlock(k K) {
	mm.mu.RLock()
	m := mm.m[k]
	mm.mu.RUnlock()
	if m != nil {
		m.Unlock()
	}
}
''')]),
 ("same-l1-rw-shared-helper", "", [(L, RL, '''func (mm *MapRWMutex[K]) RLock(k K) {
	mm.get(k).RLock()
}

func (mm *MapRWMutex[K]) get(k K) *sync.RWMutex {
	mm.mu.RLock()
	m, ok := mm.m[k]
	mm.mu.RUnlock()
	if !ok {
		mm.mu.Lock()
		defer mm.mu.Unlock()
		m, ok = mm.m[k]
		if !ok {
			m = &sync.RWMutex{}
			mm.m[k] = m
		}
	}
	return m
}
'''), (L, WL, "func (mm *MapRWMutex[K]) Lock(k K) {\n\tmm.get(k).Lock()\n}\n")]),
]

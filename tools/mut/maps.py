# Edits about the plain maps and sets: H01 H02 S01 M01 M02 T01 U01 U02.
M = []
HS, SE, MP, SM, TK, SU = ["collections/%s.go" % n for n in ("hash_set", "set", "map", "shard_map", "two_key_map", "struct_uniq_set")]
def m(name, want, *edits):
    M.append((name, want, list(edits)))
EV = "\tif s.maxCount > 0 && len(s.m) > s.maxCount {\n\t\tdelete(s.m, s.ml[0])\n\t\ts.ml = s.ml[1:]\n\t}\n"
INS = "\ts.m[key] = true\n\ts.ml = append(s.ml, key)\n" + EV
DEL = "\tdelete(s.m, key)\n\tfor i, k := range s.ml {\n\t\tif k == key {\n\t\t\ts.ml = append(s.ml[:i], s.ml[i+1:]...)\n\t\t\tbreak\n\t\t}\n\t}\n"

# ---- HashSet: quiet
m("h-insert-helper", "", (HS, INS, "\ts.insert(key)\n"), (HS, "func (s *HashSet[K]) Has(", "func (s *HashSet[K]) insert(key K) {\n" + INS + "}\n\nfunc (s *HashSet[K]) Has("))
m("h-evict-helper", "", (HS, EV, "\ts.evict()\n"), (HS, "func (s *HashSet[K]) Has(", "func (s *HashSet[K]) evict() {\n" + EV + "}\n\nfunc (s *HashSet[K]) Has("))
m("h-evict-inv", "", (HS, EV, "\ts.evict()\n"), (HS, "func (s *HashSet[K]) Has(", "func (s *HashSet[K]) evict() {\n\tif s.maxCount <= 0 || len(s.m) <= s.maxCount {\n\t\treturn\n\t}\n\toldest := s.ml[0]\n\ts.ml = s.ml[1:]\n\tdelete(s.m, oldest)\n}\n\nfunc (s *HashSet[K]) Has("))
m("h-evict-loop", "", (HS, EV, "\tfor s.maxCount > 0 && len(s.m) > s.maxCount {\n\t\tdelete(s.m, s.ml[0])\n\t\ts.ml = s.ml[1:]\n\t}\n"))
m("h-evict-loop2", "", (HS, EV, "\tif s.maxCount > 0 {\n\t\tfor len(s.ml) > s.maxCount {\n\t\t\tdelete(s.m, s.ml[0])\n\t\t\ts.ml = s.ml[1:]\n\t\t}\n\t}\n"))
m("h-evict-by-list", "", (HS, EV, "\tif s.maxCount > 0 && len(s.ml) > s.maxCount {\n\t\tdelete(s.m, s.ml[0])\n\t\ts.ml = s.ml[1:]\n\t}\n"))
m("h-evict-first", "", (HS, INS, "\tif s.maxCount > 0 && len(s.m) >= s.maxCount {\n\t\tdelete(s.m, s.ml[0])\n\t\ts.ml = s.ml[1:]\n\t}\n\ts.m[key] = true\n\ts.ml = append(s.ml, key)\n"))
m("h-list-first", "", (HS, "\ts.m[key] = true\n\ts.ml = append(s.ml, key)\n", "\ts.ml = append(s.ml, key)\n\ts.m[key] = true\n"))
m("h-copy-shift", "", (HS, "\t\ts.ml = s.ml[1:]\n", "\t\tcopy(s.ml, s.ml[1:])\n\t\ts.ml = s.ml[:len(s.ml)-1]\n"))
m("h-del-guard", "", (HS, DEL, "\tif _, ok := s.m[key]; !ok {\n\t\treturn\n\t}\n" + DEL))
m("h-del-listfirst", "", (HS, DEL, "\tfor i, k := range s.ml {\n\t\tif k == key {\n\t\t\ts.ml = append(s.ml[:i], s.ml[i+1:]...)\n\t\t\tbreak\n\t\t}\n\t}\n\tdelete(s.m, key)\n"))
m("h-del-index", "", (HS, DEL, "\tdelete(s.m, key)\n\tfor i := 0; i < len(s.ml); i++ {\n\t\tif s.ml[i] == key {\n\t\t\ts.ml = append(s.ml[:i], s.ml[i+1:]...)\n\t\t\treturn\n\t\t}\n\t}\n"))
m("h-del-slices", "", (HS, DEL, "\tdelete(s.m, key)\n\tif i := slices.Index(s.ml, key); i >= 0 {\n\t\ts.ml = slices.Delete(s.ml, i, i+1)\n\t}\n"), (HS, 'import "sync"', 'import (\n\t"slices"\n\t"sync"\n)'))
m("h-del-filter", "", (HS, DEL, "\tdelete(s.m, key)\n\tkept := make([]K, 0, len(s.ml))\n\tfor _, k := range s.ml {\n\t\tif k != key {\n\t\t\tkept = append(kept, k)\n\t\t}\n\t}\n\ts.ml = kept\n"))
m("h-del-helper", "", (HS, DEL, "\tdelete(s.m, key)\n\ts.unlist(key)\n"), (HS, "func (s *HashSet[K]) Count(", "func (s *HashSet[K]) unlist(key K) {\n\tfor i, k := range s.ml {\n\t\tif k != key {\n\t\t\tcontinue\n\t\t}\n\t\ts.ml = append(s.ml[:i], s.ml[i+1:]...)\n\t\treturn\n\t}\n}\n\nfunc (s *HashSet[K]) Count("))
m("h-clear-builtin", "", (HS, "\ts.m = make(map[K]bool)\n\ts.ml = make([]K, 0)\n", "\tclear(s.m)\n\ts.ml = s.ml[:0]\n"))
m("h-clear-nil", "", (HS, "\ts.ml = make([]K, 0)\n", "\ts.ml = nil\n"))
m("h-add-via-hoc", "", (HS, "\ts.mu.Lock()\n\tdefer s.mu.Unlock()\n\n\tif _, ok := s.m[key]; ok {\n\t\treturn\n\t}\n" + INS, "\ts.HasOrCreate(key)\n"))
m("h-hoc-nofast", "", (HS, "\ts.mu.RLock()\n\t_, ok := s.m[key]\n\ts.mu.RUnlock()\n\tif ok {\n\t\treturn true\n\t}\n\ts.mu.Lock()\n\tdefer s.mu.Unlock()\n\t_, ok = s.m[key]\n", "\ts.mu.Lock()\n\tdefer s.mu.Unlock()\n\t_, ok := s.m[key]\n"))
m("h-hoc-viahas", "", (HS, "\ts.mu.RLock()\n\t_, ok := s.m[key]\n\ts.mu.RUnlock()\n\tif ok {\n\t\treturn true\n\t}\n\ts.mu.Lock()\n\tdefer s.mu.Unlock()\n\t_, ok = s.m[key]\n\tif ok {", "\tif s.Has(key) {\n\t\treturn true\n\t}\n\ts.mu.Lock()\n\tdefer s.mu.Unlock()\n\tif s.m[key] {"))
m("h-has-value", "", (HS, "\t_, ok := s.m[key]\n\treturn ok\n", "\treturn s.m[key]\n"))
m("h-keys-idx", "", (HS, "\tkeys := make([]K, 0, len(s.m))\n\tfor k := range s.m {\n\t\tkeys = append(keys, k)\n\t}\n", "\tkeys := make([]K, len(s.m))\n\ti := 0\n\tfor k := range s.m {\n\t\tkeys[i] = k\n\t\ti++\n\t}\n"))
m("h-keys-list", "", (HS, "\tkeys := make([]K, 0, len(s.m))\n\tfor k := range s.m {\n\t\tkeys = append(keys, k)\n\t}\n\treturn keys", "\tkeys := make([]K, len(s.ml))\n\tcopy(keys, s.ml)\n\treturn keys"))
# ---- HashSet: bugs
m("h-evict-ge", "H01", (HS, "len(s.m) > s.maxCount", "len(s.m) >= s.maxCount"))
m("h-evict-newest", "H01", (HS, "\t\tdelete(s.m, s.ml[0])\n\t\ts.ml = s.ml[1:]\n", "\t\tdelete(s.m, s.ml[len(s.ml)-1])\n\t\ts.ml = s.ml[:len(s.ml)-1]\n"))
m("h-evict-two", "H01", (HS, "\t\ts.ml = s.ml[1:]\n", "\t\ts.ml = s.ml[2:]\n"))
m("h-evict-list-only", "H01", (HS, "\t\tdelete(s.m, s.ml[0])\n", ""))
m("h-evict-map-only", "H01", (HS, "\t\ts.ml = s.ml[1:]\n", ""))
m("h-evict-half", "H01", (HS, "\t\tdelete(s.m, s.ml[0])\n\t\ts.ml = s.ml[1:]\n", "\t\tn := len(s.ml) / 2\n\t\tfor _, k := range s.ml[:n] {\n\t\t\tdelete(s.m, k)\n\t\t}\n\t\ts.ml = s.ml[n:]\n"))
m("h-add-refresh", "H01", (HS, "\tif _, ok := s.m[key]; ok {\n\t\treturn\n\t}\n", "\tif _, ok := s.m[key]; ok {\n\t\ts.ml = append(s.ml[1:], key)\n\t\treturn\n\t}\n"))
m("h-add-dup", "H01", (HS, "\tif _, ok := s.m[key]; ok {\n\t\treturn\n\t}\n", ""))
m("h-hoc-norecheck", "H01 H02", (HS, "\t_, ok = s.m[key]\n\tif ok {\n\t\treturn true\n\t}\n\ts.m[key] = true", "\ts.m[key] = true"))
m("h-del-map-only", "H01", (HS, DEL, "\tdelete(s.m, key)\n"))
m("h-del-nobreak-first", "H01", (HS, "\t\tif k == key {\n\t\t\ts.ml = append(s.ml[:i], s.ml[i+1:]...)\n\t\t\tbreak\n\t\t}", "\t\tif k == key {\n\t\t\ts.ml = append(s.ml[:0], s.ml[i+1:]...)\n\t\t\tbreak\n\t\t}"))
m("h-del-lastmiss", "H01", (HS, "for i, k := range s.ml {", "for i, k := range s.ml[:max(len(s.ml)-1, 0)] {"))
m("h-del-swap", "H01", (HS, "s.ml = append(s.ml[:i], s.ml[i+1:]...)", "s.ml[i] = s.ml[len(s.ml)-1]\n\t\t\ts.ml = s.ml[:len(s.ml)-1]"))
m("h-clear-map-only", "H01", (HS, "\ts.ml = make([]K, 0)\n", ""))
m("h-clear-list-only", "H02", (HS, "\ts.m = make(map[K]bool)\n\ts.ml = make([]K, 0)\n", "\ts.ml = make([]K, 0)\n"))
m("h-hoc-inv", "H02", (HS, "\treturn false\n}\n\nfunc (s *HashSet[K]) Delete", "\treturn s.m[key]\n}\n\nfunc (s *HashSet[K]) Delete"))
m("h-has-neg", "H02", (HS, "\tdefer s.mu.RUnlock()\n\t_, ok := s.m[key]\n\treturn ok\n", "\tdefer s.mu.RUnlock()\n\t_, ok := s.m[key]\n\treturn ok && len(s.ml) < s.maxCount\n"))
m("h-count-list", "H02", (HS, "\treturn len(s.m)\n", "\treturn cap(s.ml)\n"))
m("h-keys-dup", "H02", (HS, "\tkeys := make([]K, 0, len(s.m))\n", "\tkeys := make([]K, len(s.m))\n"))

# ---- Set: quiet
m("s-addall-set", "", (SE, "\tfor _, i := range v {\n\t\ts.Add(i)\n\t}\n", "\tfor i := 0; i < len(v); i++ {\n\t\ts.m[v[i]] = struct{}{}\n\t}\n"))
m("s-new-addall", "", (SE, "\tfor _, v := range init {\n\t\tt.Add(v)\n\t}\n", "\tt.AddAll(init...)\n"))
m("s-new-cap", "", (SE, "m: make(map[T]struct{})", "m: make(map[T]struct{}, len(init))"))
m("s-hasany-neg", "", (SE, "\tfor _, i := range v {\n\t\tif s.Has(i) {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false\n", "\tfound := false\n\tfor _, i := range v {\n\t\tif s.Has(i) {\n\t\t\tfound = true\n\t\t\tbreak\n\t\t}\n\t}\n\treturn found\n"))
m("s-hasall-idx", "", (SE, "\tfor _, i := range v {\n\t\tif !s.Has(i) {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true\n", "\tfor i := range v {\n\t\tif _, ok := s.m[v[i]]; !ok {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true\n"))
m("s-equals-direct", "", (SE, "\tfor _, v := range s.Values() {\n\t\tif !other.Has(v) {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true", "\tfor v := range s.m {\n\t\tif _, ok := other.m[v]; !ok {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true"))
m("s-equals-hasall", "", (SE, "\tfor _, v := range s.Values() {\n\t\tif !other.Has(v) {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true", "\treturn other.HasAll(s.Values()...)"))
m("s-equals-other", "", (SE, "\tfor _, v := range s.Values() {\n\t\tif !other.Has(v) {", "\tfor _, v := range other.Values() {\n\t\tif !s.Has(v) {"))
m("s-clone-init", "", (SE, "\tclone := NewSet[T]()\n\tfor _, v := range s.Values() {\n\t\tclone.Add(v)\n\t}\n\treturn clone", "\treturn NewSet[T](s.Values()...)"))
m("s-clone-range", "", (SE, "\tfor _, v := range s.Values() {\n\t\tclone.Add(v)\n\t}", "\tfor v := range s.m {\n\t\tclone.m[v] = struct{}{}\n\t}"))
m("s-clone-maps", "", (SE, "\tclone := NewSet[T]()\n\tfor _, v := range s.Values() {\n\t\tclone.Add(v)\n\t}\n\treturn clone", "\treturn &Set[T]{m: maps.Clone(s.m)}"), (SE, "package collections\n", 'package collections\n\nimport "maps"\n'))
m("s-clear-make", "", (SE, "\tclear(s.m)\n", "\ts.m = make(map[T]struct{})\n"))
m("s-all-inline", "", (SE, "\treturn s.Values()\n", "\tout := make([]T, 0, len(s.m))\n\tfor v := range s.m {\n\t\tout = append(out, v)\n\t}\n\treturn out\n"))
# ---- Set: bugs
m("s-clone-share", "S01", (SE, "\tclone := NewSet[T]()\n\tfor _, v := range s.Values() {\n\t\tclone.Add(v)\n\t}\n\treturn clone", "\treturn &Set[T]{m: s.m}"))
m("s-hasany-all", "S01", (SE, "\t\tif s.Has(i) {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false", "\t\tif !s.Has(i) {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn true"))
m("s-hasall-empty", "S01", (SE, "\tfor _, i := range v {\n\t\tif !s.Has(i) {", "\tif len(v) == 0 {\n\t\treturn false\n\t}\n\tfor _, i := range v {\n\t\tif !s.Has(i) {"))
m("s-equals-size", "S01", (SE, "\tif s.Size() != other.Size() {\n\t\treturn false\n\t}\n", ""))
m("s-equals-le", "S01", (SE, "s.Size() != other.Size()", "s.Size() > other.Size()"))
m("s-values-len", "S01", (SE, "values := make([]T, 0, len(s.m))", "values := make([]T, len(s.m))"))
m("s-addall-skip", "S01", (SE, "\tfor _, i := range v {\n\t\ts.Add(i)\n\t}\n", "\tfor _, i := range v {\n\t\tif s.Has(i) {\n\t\t\treturn\n\t\t}\n\t\ts.Add(i)\n\t}\n"))
m("s-new-first", "S01", (SE, "\tfor _, v := range init {\n\t\tt.Add(v)\n\t}\n", "\tif len(init) > 0 {\n\t\tt.AddAll(init[1:]...)\n\t}\n"))
m("s-clear-some", "S01", (SE, "\tclear(s.m)\n", "\tfor v := range s.m {\n\t\tdelete(s.m, v)\n\t\tbreak\n\t}\n"))

# ---- SimpleMap / ShardMap: quiet
m("m-get-direct", "", (MP, "\tv, ok := m.m[key]\n\treturn v, ok\n", "\tif v, ok := m.m[key]; ok {\n\t\treturn v, true\n\t}\n\tvar zero V\n\treturn zero, false\n"))
m("m-nodefer", "", (MP, "\tm.mu.Lock()\n\tdefer m.mu.Unlock()\n\tm.m[key] = value\n", "\tm.mu.Lock()\n\tm.m[key] = value\n\tm.mu.Unlock()\n"))
m("m-sine-via-func", "", (MP, "\tm.mu.Lock()\n\tdefer m.mu.Unlock()\n\tif _, ok := m.m[key]; ok {\n\t\treturn false\n\t}\n\tm.m[key] = value\n\treturn true\n", "\t_, stored := m.SetIfNotExistsWithFunc(key, func() V { return value })\n\treturn stored\n"))
m("m-sine-has", "", (MP, "\tif _, ok := m.m[key]; ok {\n\t\treturn false\n\t}\n\tm.m[key] = value\n\treturn true\n", "\t_, exists := m.m[key]\n\tif !exists {\n\t\tm.m[key] = value\n\t}\n\treturn !exists\n"))
m("m-fast-path", "", (MP, "SetIfNotExistsWithFunc(key K, fn func() V) (V, bool) {\n\tm.mu.Lock()", "SetIfNotExistsWithFunc(key K, fn func() V) (V, bool) {\n\tif v, ok := m.Get(key); ok {\n\t\treturn v, false\n\t}\n\tm.mu.Lock()"))
m("m-size-get", "", (MP, "\tdefer m.mu.RUnlock()\n\treturn len(m.m)\n", "\tn := len(m.m)\n\tm.mu.RUnlock()\n\treturn n\n"))
m("sm-lockvar", "", (SM, "\tshard := m.shardsFunc(key)\n\tm.shardsLock[shard].Lock()\n\tdefer m.shardsLock[shard].Unlock()\n\tm.shards[shard][key] = value\n}\n\nfunc (m *ShardMap[K, V]) Delete", "\tshard := m.shardsFunc(key)\n\tmu := &m.shardsLock[shard]\n\tmu.Lock()\n\tdefer mu.Unlock()\n\ts := m.shards[shard]\n\ts[key] = value\n}\n\nfunc (m *ShardMap[K, V]) Delete"))
m("sm-helper", "", (SM, "\tshard := m.shardsFunc(key)\n\tm.shardsLock[shard].RLock()\n\tdefer m.shardsLock[shard].RUnlock()\n\t_, ok := m.shards[shard][key]\n\treturn ok\n", "\t_, ok := m.Get(key)\n\treturn ok\n"))
m("sm-clear-range", "", (SM, "\tfor i := 0; i < m.shardsCount; i++ {\n\t\tm.shardsLock[i].Lock()", "\tfor i := range m.shards {\n\t\tm.shardsLock[i].Lock()"))
m("sm-clear-builtin", "", (SM, "\t\tm.shards[i] = make(map[K]V)\n\t\tm.shardsLock[i].Unlock()", "\t\tclear(m.shards[i])\n\t\tm.shardsLock[i].Unlock()"))
m("sm-size-fn", "", (SM, "\t\tm.shardsLock[i].RLock()\n\t\tcount += len(m.shards[i])\n\t\tm.shardsLock[i].RUnlock()\n", "\t\tcount += m.shardSize(i)\n"), (SM, "type ShardMapBuilder", "func (m *ShardMap[K, V]) shardSize(i int) int {\n\tm.shardsLock[i].RLock()\n\tdefer m.shardsLock[i].RUnlock()\n\treturn len(m.shards[i])\n}\n\ntype ShardMapBuilder"))
m("sm-size-range", "", (SM, "\tcount := 0\n\tfor i := 0; i < m.shardsCount; i++ {", "\tcount := 0\n\tfor i := range m.shardsLock {"))
m("sm-build-range", "", (SM, "\tfor i := 0; i < b.shardsCount; i++ {\n\t\tm.shards[i] = make(map[K]V)\n\t}", "\tfor i := range m.shards {\n\t\tm.shards[i] = map[K]V{}\n\t}"))
m("sm-clear-all-locked", "", (SM, "\tfor i := 0; i < m.shardsCount; i++ {\n\t\tm.shardsLock[i].Lock()\n\t\tm.shards[i] = make(map[K]V)\n\t\tm.shardsLock[i].Unlock()\n\t}\n", "\tfor i := 0; i < m.shardsCount; i++ {\n\t\tfunc() {\n\t\t\tm.shardsLock[i].Lock()\n\t\t\tdefer m.shardsLock[i].Unlock()\n\t\t\tm.shards[i] = make(map[K]V)\n\t\t}()\n\t}\n"))
m("sm-find", "", (SM, "\tshard := m.shardsFunc(key)\n\tm.shardsLock[shard].Lock()\n\tdefer m.shardsLock[shard].Unlock()\n\tdelete(m.shards[shard], key)\n", "\tmu, shard := m.find(key)\n\tmu.Lock()\n\tdefer mu.Unlock()\n\tdelete(m.shards[shard], key)\n"), (SM, "type ShardMapBuilder", "func (m *ShardMap[K, V]) find(key K) (*sync.RWMutex, int) {\n\tshard := m.shardsFunc(key)\n\treturn &m.shardsLock[shard], shard\n}\n\ntype ShardMapBuilder"))
# ---- bugs
m("m-func-twice", "M01", (MP, "\tv := fn()\n\tm.m[key] = v\n\treturn v, true\n", "\tm.m[key] = fn()\n\treturn fn(), true\n"))
m("m-func-early", "M01", (MP, "SetIfNotExistsWithFunc(key K, fn func() V) (V, bool) {\n\tm.mu.Lock()\n\tdefer m.mu.Unlock()\n\tif v, ok := m.m[key]; ok {\n\t\treturn v, false\n\t}\n\tv := fn()\n", "SetIfNotExistsWithFunc(key K, fn func() V) (V, bool) {\n\tv := fn()\n\tm.mu.Lock()\n\tdefer m.mu.Unlock()\n\tif v, ok := m.m[key]; ok {\n\t\treturn v, false\n\t}\n"))
m("m-sine-split", "M01", (MP, "\tif _, ok := m.m[key]; ok {\n\t\treturn false\n\t}\n\tm.m[key] = value\n\treturn true\n", "\t_, ok := m.m[key]\n\tm.mu.Unlock()\n\tm.mu.Lock()\n\tif ok {\n\t\treturn false\n\t}\n\tm.m[key] = value\n\treturn true\n"))
m("m-sine-true", "M01", (MP, "\tif _, ok := m.m[key]; ok {\n\t\treturn false\n\t}\n\tm.m[key] = value\n\treturn true\n", "\t_, ok := m.m[key]\n\tm.m[key] = value\n\treturn !ok\n"))
m("m-get-ok", "M01", (MP, "\tv, ok := m.m[key]\n\treturn v, ok\n", "\tv := m.m[key]\n\treturn v, len(m.m) > 0\n"))
m("sm-func-otherlock", "M02", (SM, "\tv := fn()\n\tm.shards[shard][key] = v\n", "\tv := fn()\n\tm.shards[m.shardsFunc(key)][key] = v\n"))
m("sm-clear-first", "M02", (SM, "\t\tm.shards[i] = make(map[K]V)\n\t\tm.shardsLock[i].Unlock()", "\t\tif len(m.shards[i]) > 0 {\n\t\t\tm.shards[i] = make(map[K]V)\n\t\t\tm.shardsLock[i].Unlock()\n\t\t\treturn\n\t\t}\n\t\tm.shardsLock[i].Unlock()"))
m("sm-build-last", "M02", (SM, "\tfor i := 0; i < b.shardsCount; i++ {\n\t\tm.shards[i]", "\tfor i := 0; i < b.shardsCount-1; i++ {\n\t\tm.shards[i]"))
m("sm-lazy", "M02", (SM, "\tfor i := 0; i < b.shardsCount; i++ {\n\t\tm.shards[i] = make(map[K]V)\n\t}\n", ""))
m("sm-get-nolock0", "M02", (SM, "\tm.shardsLock[shard].RLock()\n\tdefer m.shardsLock[shard].RUnlock()\n\tv, ok", "\tm.shardsLock[0].RLock()\n\tdefer m.shardsLock[0].RUnlock()\n\tv, ok"))

# ---- TwoKeyMap: quiet
PUT = "\tif oldK2, ok := m.k1Tok2[k1]; ok && oldK2 != k2 {\n\t\tdelete(m.k2Tok1, oldK2)\n\t}\n\tif oldK1, ok := m.k2Tok1[k2]; ok && oldK1 != k1 {\n\t\tdelete(m.data, oldK1)\n\t\tdelete(m.k1Tok2, oldK1)\n\t}\n"
RM1 = "\tk2, ok := m.k1Tok2[k1]\n\tif !ok {\n\t\treturn\n\t}\n\tdelete(m.data, k1)\n\tdelete(m.k2Tok1, k2)\n\tdelete(m.k1Tok2, k1)\n"
m("t-put-always-unlink", "", (TK, PUT, "\tif oldK2, ok := m.k1Tok2[k1]; ok {\n\t\tdelete(m.k2Tok1, oldK2)\n\t}\n\tif oldK1, ok := m.k2Tok1[k2]; ok {\n\t\tdelete(m.data, oldK1)\n\t\tdelete(m.k1Tok2, oldK1)\n\t}\n"))
m("t-put-swap", "", (TK, PUT, "\tif oldK1, ok := m.k2Tok1[k2]; ok && oldK1 != k1 {\n\t\tdelete(m.data, oldK1)\n\t\tdelete(m.k1Tok2, oldK1)\n\t}\n\tif oldK2, ok := m.k1Tok2[k1]; ok && oldK2 != k2 {\n\t\tdelete(m.k2Tok1, oldK2)\n\t}\n"))
m("t-put-unlink", "", (TK, PUT, "\tm.unlink(k1)\n\tif oldK1, ok := m.k2Tok1[k2]; ok {\n\t\tm.unlink(oldK1)\n\t}\n"), (TK, "func (m *TwoKeyMap[K1, K2, V]) Get(", "func (m *TwoKeyMap[K1, K2, V]) unlink(k1 K1) {\n\tk2, ok := m.k1Tok2[k1]\n\tif !ok {\n\t\treturn\n\t}\n\tdelete(m.data, k1)\n\tdelete(m.k1Tok2, k1)\n\tdelete(m.k2Tok1, k2)\n}\n\nfunc (m *TwoKeyMap[K1, K2, V]) Get("))
m("t-remove-shared", "", (TK, RM1, "\tif k2, ok := m.k1Tok2[k1]; ok {\n\t\tm.drop(k1, k2)\n\t}\n"), (TK, "func (m *TwoKeyMap[K1, K2, V]) Get(", "func (m *TwoKeyMap[K1, K2, V]) drop(k1 K1, k2 K2) {\n\tdelete(m.k2Tok1, k2)\n\tdelete(m.k1Tok2, k1)\n\tdelete(m.data, k1)\n}\n\nfunc (m *TwoKeyMap[K1, K2, V]) Get("))
m("t-getby-simple", "", (TK, "\tif !ok {\n\t\tok = false\n\t\treturn\n\t}\n\tv, ok = m.data[k1]\n\treturn v, ok\n", "\tif ok {\n\t\tv, ok = m.data[k1]\n\t}\n\treturn v, ok\n"))
m("t-keysk2-values", "", (TK, "\tkeys := make([]K2, 0, len(m.k2Tok1))\n\tfor k := range m.k2Tok1 {\n\t\tkeys = append(keys, k)\n\t}\n", "\tkeys := make([]K2, 0, len(m.k1Tok2))\n\tfor _, k := range m.k1Tok2 {\n\t\tkeys = append(keys, k)\n\t}\n"))
m("t-len-links", "", (TK, "\treturn len(m.data)\n", "\treturn len(m.k1Tok2)\n"))
# ---- bugs
m("t-put-no-old1", "T01", (TK, "\tif oldK1, ok := m.k2Tok1[k2]; ok && oldK1 != k1 {\n\t\tdelete(m.data, oldK1)\n\t\tdelete(m.k1Tok2, oldK1)\n\t}\n", ""))
m("t-put-data-left", "T01", (TK, "\t\tdelete(m.data, oldK1)\n\t\tdelete(m.k1Tok2, oldK1)\n", "\t\tdelete(m.k1Tok2, oldK1)\n"))
m("t-put-old2-after", "T01", (TK, PUT, "\tm.k1Tok2[k1] = k2\n" + PUT))
m("t-put-both", "T01", (TK, PUT, "\tif oldK2, ok := m.k1Tok2[k1]; ok && oldK2 != k2 {\n\t\tdelete(m.k2Tok1, oldK2)\n\t} else if oldK1, ok := m.k2Tok1[k2]; ok && oldK1 != k1 {\n\t\tdelete(m.data, oldK1)\n\t\tdelete(m.k1Tok2, oldK1)\n\t}\n"))
m("t-remove-zero", "T01", (TK, "\tk2, ok := m.k1Tok2[k1]\n\tif !ok {\n\t\treturn\n\t}\n", "\tk2 := m.k1Tok2[k1]\n"))
m("t-removeby-link", "T01", (TK, "\tdelete(m.k1Tok2, k1)\n\tdelete(m.k2Tok1, k2)\n", "\tdelete(m.k2Tok1, k2)\n"))
m("t-getby-zero", "T01", (TK, "\tif !ok {\n\t\tok = false\n\t\treturn\n\t}\n", ""))
m("t-put-unlocked-get", "T01", (TK, "\tk1, ok := m.k2Tok1[k2]\n\tif !ok {\n\t\tok = false", "\tk1, ok := m.k2Tok1[k2]\n\tm.mu.RUnlock()\n\tm.mu.RLock()\n\tif !ok {\n\t\tok = false"))

# ---- StructUniqSet: quiet
m("u-add-nofast", "", (SU, "\ts.elementsMu.RLock()\n\t_, ok := s.elements[hash]\n\ts.elementsMu.RUnlock()\n\tif ok {\n\t\treturn false, nil\n\t}\n\ts.elementsMu.Lock()\n\t_, ok = s.elements[hash]\n", "\ts.elementsMu.Lock()\n\t_, ok := s.elements[hash]\n"))
m("u-add-local", "", (SU, "\t\ts.elements[hash] = &structUniqSetElement{hash: hash, createdAt: time.Now()}\n\t\ts.ttlElements = append(s.ttlElements, s.elements[hash])\n", "\t\tel := &structUniqSetElement{hash: hash, createdAt: time.Now()}\n\t\ts.elements[hash] = el\n\t\ts.ttlElements = append(s.ttlElements, el)\n"))
m("u-add-defer", "", (SU, "\ts.elementsMu.Lock()\n\t_, ok = s.elements[hash]\n\tif !ok {\n\t\ts.elements[hash] = &structUniqSetElement{hash: hash, createdAt: time.Now()}\n\t\ts.ttlElements = append(s.ttlElements, s.elements[hash])\n\t}\n\ts.elementsMu.Unlock()\n\treturn !ok, nil\n", "\ts.elementsMu.Lock()\n\tdefer s.elementsMu.Unlock()\n\tif _, exists := s.elements[hash]; exists {\n\t\treturn false, nil\n\t}\n\tel := &structUniqSetElement{hash: hash, createdAt: time.Now()}\n\ts.elements[hash] = el\n\ts.ttlElements = append(s.ttlElements, el)\n\treturn true, nil\n"))
m("u-remove-nocheck", "", (SU, "\tif ok {\n\t\tdelete(s.elements, hash)\n\t}\n", "\tdelete(s.elements, hash)\n"))
CL = "\t\t\t\ts.x()\n"
LOOP = "\t\t\t\texpired := len(res.ttlElements)\n\t\t\t\tfor i, el := range res.ttlElements {\n\t\t\t\t\tif time.Since(el.createdAt) < res.ttl {\n\t\t\t\t\t\texpired = i\n\t\t\t\t\t\tbreak\n\t\t\t\t\t}\n\t\t\t\t\tif res.elements[el.hash] == el {\n\t\t\t\t\t\tdelete(res.elements, el.hash)\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tres.ttlElements = res.ttlElements[expired:]\n"
FIRST = "\t\t\t\tres.elementsMu.RLock()\n\t\t\t\tif len(res.ttlElements) == 0 {\n\t\t\t\t\tres.elementsMu.RUnlock()\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tfirst := res.ttlElements[0]\n\t\t\t\tres.elementsMu.RUnlock()\n\t\t\t\tif time.Since(first.createdAt) < res.ttl {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n"
m("u-clean-nofast", "", (SU, FIRST, ""))
m("u-clean-while", "", (SU, LOOP, "\t\t\t\tfor len(res.ttlElements) > 0 && time.Since(res.ttlElements[0].createdAt) >= res.ttl {\n\t\t\t\t\tel := res.ttlElements[0]\n\t\t\t\t\tif res.elements[el.hash] == el {\n\t\t\t\t\t\tdelete(res.elements, el.hash)\n\t\t\t\t\t}\n\t\t\t\t\tres.ttlElements = res.ttlElements[1:]\n\t\t\t\t}\n"))
m("u-clean-idx", "", (SU, LOOP, "\t\t\t\tn := 0\n\t\t\t\tfor n < len(res.ttlElements) && time.Since(res.ttlElements[n].createdAt) >= res.ttl {\n\t\t\t\t\tif el := res.ttlElements[n]; res.elements[el.hash] == el {\n\t\t\t\t\t\tdelete(res.elements, el.hash)\n\t\t\t\t\t}\n\t\t\t\t\tn++\n\t\t\t\t}\n\t\t\t\tres.ttlElements = res.ttlElements[n:]\n"))
m("u-clean-method", "", (SU, LOOP + "\t\t\t\tres.elementsMu.Unlock()\n", "\t\t\t\tres.dropExpired()\n\t\t\t\tres.elementsMu.Unlock()\n"), (SU, "func (s *StructUniqSet[V]) Count(", "func (s *StructUniqSet[V]) dropExpired() {\n" + LOOP.replace("res.", "s.").replace("\t\t\t\t", "\t") + "}\n\nfunc (s *StructUniqSet[V]) Count("))
m("u-clean-before", "", (SU, "time.Since(el.createdAt) < res.ttl", "time.Now().Before(el.createdAt.Add(res.ttl))"))
m("u-ticker", "", (SU, "\tgo func() {\n\t\tfor {\n\t\t\tselect {\n\t\t\tcase <-res.ctx.Done():\n\t\t\t\treturn\n\t\t\tcase <-time.After(res.checkInterval):", "\tgo func() {\n\t\tticker := time.NewTicker(res.checkInterval)\n\t\tdefer ticker.Stop()\n\t\tfor {\n\t\t\tselect {\n\t\t\tcase <-res.ctx.Done():\n\t\t\t\treturn\n\t\t\tcase <-ticker.C:"))
m("u-hash-once", "", (SU, "\tmd5.Sum(buffer.Bytes())\n\treturn", "\treturn"))
m("u-run-method", "", (SU, "\tgo func() {\n\t\tfor {\n\t\t\tselect {\n\t\t\tcase <-res.ctx.Done():", "\tgo res.clean()\n\treturn res\n}\n\nfunc (res *StructUniqSet[V]) clean() {\n\t\tfor {\n\t\t\tselect {\n\t\t\tcase <-res.ctx.Done():"), (SU, "\t\t}\n\t}()\n\treturn res\n}\n", "\t\t}\n}\n"))
# ---- bugs
m("u-remove-unlocked", "U01", (SU, "\ts.elementsMu.Lock()\n\t_, ok := s.elements[hash]\n\tif ok {", "\ts.elementsMu.RLock()\n\t_, ok := s.elements[hash]\n\ts.elementsMu.RUnlock()\n\ts.elementsMu.Lock()\n\tif ok {"))
m("u-add-refresh", "U02", (SU, "\t_, ok = s.elements[hash]\n\tif !ok {", "\t_, ok = s.elements[hash]\n\tif ok {\n\t\ts.elements[hash].createdAt = time.Now()\n\t}\n\tif !ok {"))
m("u-clean-identity", "U02", (SU, "\t\t\t\t\tif res.elements[el.hash] == el {\n\t\t\t\t\t\tdelete(res.elements, el.hash)\n\t\t\t\t\t}\n", "\t\t\t\t\tdelete(res.elements, el.hash)\n"))
m("u-clean-off", "U02", (SU, "\t\t\t\t\t\texpired = i\n", "\t\t\t\t\t\texpired = i + 1\n"))
m("u-clean-early", "U02", (SU, "if time.Since(el.createdAt) < res.ttl {", "if time.Since(el.createdAt) < res.ttl/2 {"))
m("u-clean-drop-err", "U01", (SU, "\thash, err := s.getHashCode(v)\n\tif err != nil {\n\t\treturn false, err\n\t}\n\ts.elementsMu.Lock()\n\t_, ok := s.elements[hash]\n\tif ok {\n\t\tdelete", "\thash, _ := s.getHashCode(v)\n\ts.elementsMu.Lock()\n\t_, ok := s.elements[hash]\n\tif ok {\n\t\tdelete"))
m("u-remove-list", "", (SU, "\tif ok {\n\t\tdelete(s.elements, hash)\n\t}\n", "\tif ok {\n\t\tdelete(s.elements, hash)\n\t\tfor i, el := range s.ttlElements {\n\t\t\tif el.hash == hash {\n\t\t\t\ts.ttlElements = append(s.ttlElements[:i], s.ttlElements[i+1:]...)\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t}\n"))
m("u-created-omitted", "U02", (SU, "&structUniqSetElement{hash: hash, createdAt: time.Now()}", "&structUniqSetElement{hash: hash}"))
m("u-hash-omitted", "U02", (SU, "&structUniqSetElement{hash: hash, createdAt: time.Now()}", "&structUniqSetElement{createdAt: time.Now()}"))
m("u-remove-plain", "", (SU, "\tif ok {\n\t\tdelete(s.elements, hash)\n\t}\n\ts.elementsMu.Unlock()\n\treturn ok, nil", "\tdelete(s.elements, hash)\n\ts.elementsMu.Unlock()\n\treturn ok, nil"))
m("u-remove-has", "U01", (SU, "\thash, err := s.getHashCode(v)\n\tif err != nil {\n\t\treturn false, err\n\t}\n\ts.elementsMu.Lock()\n\t_, ok := s.elements[hash]\n\tif ok {", "\tok, err := s.Has(v)\n\tif err != nil {\n\t\treturn false, err\n\t}\n\thash, err := s.getHashCode(v)\n\tif err != nil {\n\t\treturn false, err\n\t}\n\ts.elementsMu.Lock()\n\tif ok {"))
m("h-eloop-ge", "H01", (HS, EV, "\tfor s.maxCount > 0 && len(s.m) >= s.maxCount {\n\t\tdelete(s.m, s.ml[0])\n\t\ts.ml = s.ml[1:]\n\t}\n"))
m("h-eloop-two", "H01", (HS, EV, "\tfor s.maxCount > 0 && len(s.m) > s.maxCount {\n\t\tdelete(s.m, s.ml[0])\n\t\ts.ml = s.ml[2:]\n\t}\n"))
m("h-eloop-tail", "H01", (HS, EV, "\tfor s.maxCount > 0 && len(s.m) > s.maxCount {\n\t\tdelete(s.m, s.ml[len(s.ml)-1])\n\t\ts.ml = s.ml[:len(s.ml)-1]\n\t}\n"))
m("h-eloop-zero", "H01", (HS, EV, "\tfor len(s.m) > s.maxCount {\n\t\tdelete(s.m, s.ml[0])\n\t\ts.ml = s.ml[1:]\n\t}\n"))
m("h-eloop-break", "H01", (HS, EV, "\tfor s.maxCount > 0 && len(s.m) > s.maxCount {\n\t\tif len(s.ml) < 3 {\n\t\t\tbreak\n\t\t}\n\t\tdelete(s.m, s.ml[0])\n\t\ts.ml = s.ml[1:]\n\t}\n"))
m("h-del-func", "", (HS, DEL, "\tdelete(s.m, key)\n\ts.ml = slices.DeleteFunc(s.ml, func(k K) bool { return k == key })\n"), (HS, 'import "sync"', 'import (\n\t"slices"\n\t"sync"\n)'))
m("h-del-func-ne", "H01", (HS, DEL, "\tdelete(s.m, key)\n\ts.ml = slices.DeleteFunc(s.ml, func(k K) bool { return k != key })\n"), (HS, 'import "sync"', 'import (\n\t"slices"\n\t"sync"\n)'))
m("h-del-filter-brk", "H01", (HS, DEL, "\tdelete(s.m, key)\n\tkept := make([]K, 0, len(s.ml))\n\tfor _, k := range s.ml {\n\t\tif k == key {\n\t\t\tbreak\n\t\t}\n\t\tkept = append(kept, k)\n\t}\n\ts.ml = kept\n"))
m("h-copy-shift-late", "H01", (HS, "\t\tdelete(s.m, s.ml[0])\n\t\ts.ml = s.ml[1:]\n", "\t\tcopy(s.ml, s.ml[1:])\n\t\tdelete(s.m, s.ml[0])\n\t\ts.ml = s.ml[:len(s.ml)-1]\n"))
m("h-keys-alias", "H02", (HS, "\tkeys := make([]K, 0, len(s.m))\n\tfor k := range s.m {\n\t\tkeys = append(keys, k)\n\t}\n\treturn keys", "\treturn s.ml"))

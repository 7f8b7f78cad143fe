"""Rewrites of the smaller types: other splits into helpers, other loops, other early exits; and breakages of them."""
from round2 import F
from round8 import CC,SC,SK,G,HS,HO,RQ,RS,SU,TK,SM,WM,LM,RU,FP,MP,ST,CM,FS,NB,NR,Z,AE,HA,MM,DI,imp,addimp
M=[
# ---- keyed locks
("k-helper-both","",[(LM,"""	mm.mu.RLock()
	m, ok := mm.m[k]
	mm.mu.RUnlock()
	if !ok {
		mm.mu.Lock()
		m, ok = mm.m[k]
		if !ok {
			m = &sync.RWMutex{}
			mm.m[k] = m
		}
		mm.mu.Unlock()
	}
""","	m := mm.obtain(k)\n"),(LM,"func (mm *MapRWMutex[K]) RLock(","""func (mm *MapRWMutex[K]) lookup(k K) *sync.RWMutex {
	mm.mu.RLock()
	defer mm.mu.RUnlock()
	return mm.m[k]
}

func (mm *MapRWMutex[K]) obtain(k K) *sync.RWMutex {
	if m := mm.lookup(k); m != nil {
		return m
	}
	mm.mu.Lock()
	defer mm.mu.Unlock()
	m := mm.m[k]
	if m == nil {
		m = new(sync.RWMutex)
		mm.m[k] = m
	}
	return m
}

func (mm *MapRWMutex[K]) RLock("""),F(LM,"func (mm *MapRWMutex[K]) RUnlock(",'''
func (mm *MapRWMutex[K]) RUnlock(k K) {
	if m := mm.lookup(k); m != nil {
		m.RUnlock()
	}
}
'''),F(LM,"func (mm *MapRWMutex[K]) Unlock(",'''
func (mm *MapRWMutex[K]) Unlock(k K) {
	m := mm.lookup(k)
	if m == nil {
		return
	}
	m.Unlock()
}
''')]),
("k-syncmap","",[F(LM,"type MapMutex[K comparable] struct",'''
type MapMutex[K comparable] struct {
	m sync.Map
}
'''),F(LM,"func NewMapMutex[",'''
func NewMapMutex[K comparable]() *MapMutex[K] {
	return &MapMutex[K]{}
}
'''),F(LM,"func (mm *MapMutex[K]) Lock(",'''
func (mm *MapMutex[K]) Lock(k K) {
	m, _ := mm.m.LoadOrStore(k, &sync.Mutex{})
	m.(*sync.Mutex).Lock()
}
'''),F(LM,"func (mm *MapMutex[K]) Unlock(",'''
func (mm *MapMutex[K]) Unlock(k K) {
	if m, ok := mm.m.Load(k); ok {
		m.(*sync.Mutex).Unlock()
	}
}
''')]),
# ---- simple map
("m-with-func","",[F(MP,"func (m *SimpleMap[K, V]) SetIfNotExists(",'''
func (m *SimpleMap[K, V]) SetIfNotExists(key K, value V) bool {
	_, stored := m.SetIfNotExistsWithFunc(key, func() V { return value })
	return stored
}
''')]),
("m-named","",[F(MP,"func (m *SimpleMap[K, V]) SetIfNotExistsWithFunc(",'''
func (m *SimpleMap[K, V]) SetIfNotExistsWithFunc(key K, fn func() V) (value V, stored bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	value, stored = m.m[key]
	if stored = !stored; stored {
		value = fn()
		m.m[key] = value
	}
	return value, stored
}
''')]),
("m-read-write-helpers","",[F(MP,"func (m *SimpleMap[K, V]) Delete(",'''
func (m *SimpleMap[K, V]) write(fn func(data map[K]V)) {
	m.mu.Lock()
	defer m.mu.Unlock()
	fn(m.m)
}

func (m *SimpleMap[K, V]) Delete(key K) {
	m.write(func(data map[K]V) { delete(data, key) })
}
'''),F(MP,"func (m *SimpleMap[K, V]) Set(",'''
func (m *SimpleMap[K, V]) Set(key K, value V) {
	m.write(func(data map[K]V) { data[key] = value })
}
''')]),
# ---- shard map
("sm-shard-pair","",[F(SM,"func (m *ShardMap[K, V]) Get(",'''
func (m *ShardMap[K, V]) pick(key K) (*sync.RWMutex, map[K]V) {
	i := m.shardsFunc(key)
	mu := &m.shardsLock[i]
	mu.RLock()
	return mu, m.shards[i]
}

func (m *ShardMap[K, V]) Get(key K) (V, bool) {
	mu, data := m.pick(key)
	defer mu.RUnlock()
	v, ok := data[key]
	return v, ok
}
'''),F(SM,"func (m *ShardMap[K, V]) Has(",'''
func (m *ShardMap[K, V]) Has(key K) bool {
	_, found := m.Get(key)
	return found
}
''')]),
("sm-size-each","",[F(SM,"func (m *ShardMap[K, V]) Size(",'''
func (m *ShardMap[K, V]) sizeOf(i int) int {
	m.shardsLock[i].RLock()
	defer m.shardsLock[i].RUnlock()
	return len(m.shards[i])
}

func (m *ShardMap[K, V]) Size() (total int) {
	for i := range m.shards {
		total += m.sizeOf(i)
	}
	return total
}
'''),F(SM,"func (m *ShardMap[K, V]) Clear(",'''
func (m *ShardMap[K, V]) Clear() {
	for i := range m.shards {
		func() {
			m.shardsLock[i].Lock()
			defer m.shardsLock[i].Unlock()
			clear(m.shards[i])
		}()
	}
}
''')]),
("sm-each","",[F(SM,"func (m *ShardMap[K, V]) Clear(",'''
func (m *ShardMap[K, V]) each(fn func(i int)) {
	for i := 0; i < m.shardsCount; i++ {
		m.shardsLock[i].Lock()
		fn(i)
		m.shardsLock[i].Unlock()
	}
}

func (m *ShardMap[K, V]) Clear() {
	m.each(func(i int) { m.shards[i] = make(map[K]V) })
}
'''),F(SM,"func (m *ShardMap[K, V]) Size(",'''
func (m *ShardMap[K, V]) Size() int {
	count := 0
	m.each(func(i int) { count += len(m.shards[i]) })
	return count
}
''')]),
# ---- two keys
("tk-unlink","",[F(TK,"func (m *TwoKeyMap[K1, K2, V]) Put(",'''
// unlink must be called with the lock held
func (m *TwoKeyMap[K1, K2, V]) unlink(k1 K1, k2 K2) {
	delete(m.k1Tok2, k1)
	delete(m.k2Tok1, k2)
	delete(m.data, k1)
}

func (m *TwoKeyMap[K1, K2, V]) Put(k1 K1, k2 K2, v V) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if oldK2, ok := m.k1Tok2[k1]; ok {
		m.unlink(k1, oldK2)
	}
	if oldK1, ok := m.k2Tok1[k2]; ok {
		m.unlink(oldK1, k2)
	}
	m.k1Tok2[k1], m.k2Tok1[k2] = k2, k1
	m.data[k1] = v
}
'''),F(TK,"func (m *TwoKeyMap[K1, K2, V]) Remove(",'''
func (m *TwoKeyMap[K1, K2, V]) Remove(k1 K1) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if k2, ok := m.k1Tok2[k1]; ok {
		m.unlink(k1, k2)
	}
}
'''),F(TK,"func (m *TwoKeyMap[K1, K2, V]) RemoveByK2(",'''
func (m *TwoKeyMap[K1, K2, V]) RemoveByK2(k2 K2) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if k1, ok := m.k2Tok1[k2]; ok {
		m.unlink(k1, k2)
	}
}
''')]),
("tk-keysof","",[F(TK,"func (m *TwoKeyMap[K1, K2, V]) Keys() ",'''
func keysOf[K comparable, V any](src map[K]V) []K {
	res := make([]K, len(src))
	i := 0
	for k := range src {
		res[i] = k
		i++
	}
	return res
}

func (m *TwoKeyMap[K1, K2, V]) Keys() []K1 {
	m.mu.RLock()
	defer m.mu.RUnlock()
	return keysOf(m.data)
}
'''),F(TK,"func (m *TwoKeyMap[K1, K2, V]) KeysK2() ",'''
func (m *TwoKeyMap[K1, K2, V]) KeysK2() []K2 {
	m.mu.RLock()
	defer m.mu.RUnlock()
	return keysOf(m.k2Tok1)
}
''')]),
("tk-getk2","",[F(TK,"func (m *TwoKeyMap[K1, K2, V]) GetByK2(",'''
func (m *TwoKeyMap[K1, K2, V]) GetByK2(k2 K2) (V, bool) {
	m.mu.RLock()
	defer m.mu.RUnlock()
	if k1, ok := m.k2Tok1[k2]; ok {
		return m.data[k1], true
	}
	var none V
	return none, false
}
''')]),
# ---- hash set
("hs-trim","",[F(HS,"func (s *HashSet[K]) Add(",'''
// insert must be called with the lock held and an absent key
func (s *HashSet[K]) insert(key K) {
	if s.maxCount > 0 {
		for len(s.m) >= s.maxCount {
			s.evict()
		}
	}
	s.m[key] = true
	s.ml = append(s.ml, key)
}

func (s *HashSet[K]) evict() {
	oldest := s.ml[0]
	s.ml = s.ml[1:]
	delete(s.m, oldest)
}

func (s *HashSet[K]) Add(key K) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.m[key] {
		s.insert(key)
	}
}
'''),F(HS,"func (s *HashSet[K]) HasOrCreate(",'''
func (s *HashSet[K]) HasOrCreate(key K) bool {
	if s.Has(key) {
		return true
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.m[key] {
		return true
	}
	s.insert(key)
	return false
}
''')]),
# ---- set
("st-all-any","",[F(ST,"func (s *Set[T]) HasAll(",'''
func (s *Set[T]) HasAll(v ...T) bool {
	for len(v) > 0 {
		if _, ok := s.m[v[0]]; !ok {
			return false
		}
		v = v[1:]
	}
	return true
}
''')]),
("st-count","",[F(ST,"func (s *Set[T]) Equals(",'''
func (s *Set[T]) Equals(other *Set[T]) bool {
	if len(s.m) != len(other.m) {
		return false
	}
	common := 0
	for v := range s.m {
		if other.Has(v) {
			common++
		}
	}
	return common == len(s.m)
}
''')]),
("st-subset","",[F(ST,"func (s *Set[T]) Equals(",'''
func (s *Set[T]) subsetOf(other *Set[T]) bool {
	for v := range s.m {
		if _, ok := other.m[v]; !ok {
			return false
		}
	}
	return true
}

func (s *Set[T]) Equals(other *Set[T]) bool {
	return s.subsetOf(other) && other.subsetOf(s)
}
''')]),
("st-clone-new","",[F(ST,"func (s *Set[T]) Clone(",'''
func (s *Set[T]) Clone() *Set[T] {
	return NewSet(s.Values()...)
}
''')]),
# ---- comparer
("cm-filter","",[F(CM,"func CompareSlice[",'''
func idSet[T Ider](list []T) map[uint64]bool {
	ids := make(map[uint64]bool, len(list))
	for _, e := range list {
		ids[e.GetId()] = true
	}
	return ids
}

func pick[T Ider](list []T, ids map[uint64]bool, want bool) []T {
	var res []T
	for _, e := range list {
		if ids[e.GetId()] == want {
			res = append(res, e)
		}
	}
	return res
}

func CompareSlice[T1, T2 Ider](current []T1, mod []T2) ([]T1, []T2, []T1) {
	currentIds, modIds := idSet(current), idSet(mod)
	return pick(current, modIds, false), pick(mod, currentIds, false), pick(current, modIds, true)
}
''')]),
("cm-partition","",[F(CM,"func CompareSlice[",'''
func partition[A, B Ider](list []A, other []B) (in, out []A) {
	ids := map[uint64]struct{}{}
	for i := range other {
		ids[other[i].GetId()] = struct{}{}
	}
	for i := range list {
		if _, ok := ids[list[i].GetId()]; ok {
			in = append(in, list[i])
		} else {
			out = append(out, list[i])
		}
	}
	return in, out
}

func CompareSlice[T1, T2 Ider](current []T1, mod []T2) (del []T1, create []T2, modify []T1) {
	modify, del = partition(current, mod)
	_, create = partition(mod, current)
	return
}
''')]),
# ---- net
("nb-generic-put","",[F(NB,"func PackUint(",'''
func PackUint(order binary.ByteOrder, v interface{}) []byte {
	switch val := v.(type) {
	case uint8:
		return []byte{val}
	case uint16:
		return order.AppendUint16Free(val)
	}
	panic("unsupported type")
}
'''.replace('''	case uint16:
		return order.AppendUint16Free(val)
''','''	case uint16:
		data := make([]byte, 2)
		order.PutUint16(data, val)
		return data
	case uint32:
		data := make([]byte, 4)
		order.PutUint32(data, val)
		return data
	case uint64:
		data := make([]byte, 8)
		order.PutUint64(data, val)
		return data
'''))]),
("nb-chunk-rest","",[F(NB,"func Chunk(",'''
func Chunk(data []byte, size int) (chunks [][]byte) {
	for rest := data; len(rest) > 0; {
		n := min(size, len(rest))
		chunks = append(chunks, rest[:n])
		rest = rest[n:]
	}
	return chunks
}
''')]),
("nb-bools-index","",[F(NB,"func BoolArrayToByte(",'''
func BoolArrayToByte(data []bool) []byte {
	res := make([]byte, (len(data)+7)/8)
	for i, set := range data {
		if set {
			res[i/8] |= 1 << (i % 8)
		}
	}
	return res
}
'''),F(NB,"func ByteToBoolArray(",'''
func ByteToBoolArray(data []byte, count ...int) []bool {
	res := make([]bool, 0, len(data)*8)
	for _, b := range data {
		for mask := 0; mask < 8; mask++ {
			res = append(res, (b>>mask)&1 == 1)
		}
	}
	if len(count) == 0 {
		return res
	}
	return res[:count[0]]
}
''')]),
("nb-int-shift","",[F(NB,"func GetBytesFromInt(",'''
func GetBytesFromInt(data int, count int) []byte {
	bs := make([]byte, 0, count)
	for len(bs) < count {
		bs = append(bs, byte(data))
		data >>= 8
	}
	return bs
}
'''),F(NB,"func GetIntFromBytes(",'''
func GetIntFromBytes(data []byte) int {
	res := 0
	for i := len(data) - 1; i >= 0; i-- {
		res = res<<8 | int(data[i])
	}
	return res
}
''')]),
("nr-shared","",[F(NR,"func ReadNBytes(",'''
func readFull(r io.Reader, n int) ([]byte, error) {
	buff := make([]byte, n)
	if _, err := io.ReadFull(r, buff); err != nil {
		return nil, err
	}
	return buff, nil
}

func ReadNBytes(conn net.Conn, n int) ([]byte, error) {
	return readFull(conn, n)
}
'''),F(NR,"func ReadNBytesWithTimeout(",'''
func ReadNBytesWithTimeout(conn net.Conn, n int, timeout time.Duration) ([]byte, error) {
	deadline := time.Now().Add(timeout)
	if err := conn.SetReadDeadline(deadline); err != nil {
		return nil, err
	}
	defer func() { _ = conn.SetReadDeadline(time.Time{}) }()
	return readFull(conn, n)
}
'''),(NR,'	"fmt"\n','')]),
("nr-loop","",[F(NR,"func ReadNBytes(",'''
func ReadNBytes(conn net.Conn, n int) ([]byte, error) {
	buff := make([]byte, n)
	for got := 0; got < n; {
		k, err := conn.Read(buff[got:])
		got += k
		if err != nil && got < n {
			return nil, err
		}
	}
	return buff, nil
}
''')]),
# ---- zip, crypto
("z-helper","",[F(Z,"func GZipData(",'''
func GZipData(data []byte) ([]byte, error) {
	var b bytes.Buffer
	if err := compress(&b, data); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

func compress(w io.Writer, data []byte) error {
	gz := gzip.NewWriter(w)
	if _, err := gz.Write(data); err != nil {
		return err
	}
	return gz.Close()
}
'''),F(Z,"func GUnzipData(",'''
func GUnzipData(data []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(data))
	if err != nil {
		return nil, err
	}
	defer r.Close()
	res, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	return res, nil
}
''')]),
("a-split","",[(AE,"	nonce, ciphertext := cipherData[:nonceSize], cipherData[nonceSize:]\n\n	plaintext, err := gcm.Open(nil, nonce, ciphertext, nil)\n	if err != nil {\n		return nil, err\n	}\n\n	return plaintext, nil\n","	return gcm.Open(nil, cipherData[:nonceSize], cipherData[nonceSize:], nil)\n")]),
("a-append-nonce","",[(AE,"	ciphertext := gcm.Seal(nonce, nonce, data, nil)\n	return ciphertext, nil\n","	sealed := gcm.Seal(nil, nonce, data, nil)\n	return append(nonce, sealed...), nil\n")]),
# ---- crypto fs
("fs-encode-helper","",[F(FS,"func (b *CryptoFSBuilder) Save(",'''
func (b *CryptoFSBuilder) encode() ([]byte, error) {
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(b.files); err != nil {
		return nil, err
	}
	if b.aesSecret == nil {
		return buf.Bytes(), nil
	}
	return crypto.NewAES(b.aesSecret).Encrypt(buf.Bytes())
}

func (b *CryptoFSBuilder) Save() (err error) {
	data, err := b.encode()
	if err != nil {
		return err
	}
	target, err := os.Create(b.savePath)
	if err != nil {
		return err
	}
	defer func() {
		if cerr := target.Close(); err == nil {
			err = cerr
		}
	}()
	_, err = target.Write(data)
	return err
}
''')]),
("fs-read-archive","",[F(FS,"func CryptoFSFromFile(",'''
func readArchive(path string, secret []byte) ([]byte, error) {
	raw, err := os.ReadFile(path)
	if err != nil || secret == nil {
		return raw, err
	}
	return crypto.NewAES(secret).Decrypt(raw)
}

func CryptoFSFromFile(path string, aesSecret []byte) (CryptoFS, error) {
	data, err := readArchive(path, aesSecret)
	if err != nil {
		return nil, err
	}
	var files map[string]file
	if err := gob.NewDecoder(bytes.NewReader(data)).Decode(&files); err != nil {
		return nil, err
	}
	return &cryptoFS{files: files}, nil
}
''')]),
("fs-walk-helper","",[(FS,"""			entries, err := os.ReadDir(root)
			if err != nil {
				return err
			}
			var files []file
			for _, e := range entries {
				files = append(files, file{
					FileName:  e.Name(),
					Path:      filepath.Join(root, e.Name()),
					IsDirFlag: e.IsDir(),
				})
			}
""","""			files, err := listDir(root)
			if err != nil {
				return err
			}
"""),(FS,"func (b *CryptoFSBuilder) WithSavePath(","""func listDir(root string) ([]file, error) {
	entries, err := os.ReadDir(root)
	if err != nil {
		return nil, err
	}
	files := make([]file, len(entries))
	for i, e := range entries {
		files[i] = file{FileName: e.Name(), Path: filepath.Join(root, e.Name()), IsDirFlag: e.IsDir()}
	}
	return files, nil
}

func (b *CryptoFSBuilder) WithSavePath(""")]),
("fs-find","",[F(FS,"func (c *cryptoFS) Open(",'''
func (c *cryptoFS) find(name string) (file, error) {
	if f, ok := c.files[name]; ok {
		return f, nil
	}
	return file{}, fs.ErrNotExist
}

func (c *cryptoFS) Open(path string) (fs.File, error) {
	f, err := c.find(path)
	if err != nil {
		return nil, err
	}
	return &openFile{file: f, reader: bytes.NewReader(f.Data)}, nil
}
'''),F(FS,"func (c *cryptoFS) ReadDir(",'''
func (c *cryptoFS) ReadDir(name string) ([]fs.DirEntry, error) {
	f, err := c.find(name)
	switch {
	case err != nil:
		return nil, err
	case !f.IsDirFlag:
		return nil, errors.New("not a directory")
	}
	var entries []fs.DirEntry
	for _, e := range f.Entries {
		entries = append(entries, e)
	}
	return entries, nil
}
''')]),
# ---- math
("di-abs","",[F(DI,"func IntPointMove(",'''
func IntPointMove(value int, shift int) int {
	for ; shift > 0; shift-- {
		value *= 10
	}
	for ; shift < 0; shift++ {
		value /= 10
	}
	return value
}
''')]),
# ---- processor
("fp-run","",[F(FP,"func (fb *ProcessorBuilder[E, S]) Build(",'''
func (r ProcessorRouter[E, S]) run(event E, state S) (err error) {
	for i := 0; i < len(r.chain) && err == nil; i++ {
		err = r.chain[i](event, state)
	}
	return err
}

func (fb *ProcessorBuilder[E, S]) Build() func(event E, state S) error {
	routes := fb.routes
	return func(event E, state S) error {
		for i := range routes {
			err := routes[i].run(event, state)
			if err != nil {
				return err
			}
		}
		return nil
	}
}
''')]),
("fp-all-steps","",[F(FP,"func (fb *ProcessorBuilder[E, S]) Build(",'''
func (fb *ProcessorBuilder[E, S]) Build() func(event E, state S) error {
	var steps []func(event E, state S) error
	for _, route := range fb.routes {
		steps = append(steps, route.chain...)
	}
	return func(event E, state S) error {
		for _, step := range steps {
			if err := step(event, state); err != nil {
				return err
			}
		}
		return nil
	}
}
''')]),
]

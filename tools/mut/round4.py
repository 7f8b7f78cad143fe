"""Third battery of single-function rewrites: the packages outside collections and chans."""
from round2 import F
RU="workers/runner.go"; PR="flow/processor.go"; RD="net/read.go"; TB="net/to_bytes.go"
DI="math/decimal_int.go"; MM="math/minmax.go"; AE="crypto/aes.go"; HA="crypto/hash.go"; FS="crypto_fs/crypto_fs.go"; CO="comparer/comparer.go"; ZI="zip/gzip.go"
M=[
("r-worker-method","",[F(RU,"func (b *RunnerBuilder) Build()",'''
func (b *RunnerBuilder) Build() *Runner {
	r := &Runner{
		ctx:        b.ctx,
		runners:    make(chan RunnerFn, b.bufferSize),
		runnersCtx: make(chan RunnerContextFn, b.bufferSize),
	}
	for n := b.workerCount; n > 0; n-- {
		go r.work()
	}
	return r
}

func (r *Runner) work() {
	for r.step() {
	}
}

// step runs one task, it reports false when the context is over.
func (r *Runner) step() bool {
	select {
	case <-r.ctx.Done():
		return false
	case task := <-r.runners:
		task()
	case task := <-r.runnersCtx:
		task(r.ctx)
	}
	return true
}
''')]),
("r-range-int","",[F(RU,"func (b *RunnerBuilder) Build()",'''
func (b *RunnerBuilder) Build() *Runner {
	r := &Runner{ctx: b.ctx}
	r.runners = make(chan RunnerFn, b.bufferSize)
	r.runnersCtx = make(chan RunnerContextFn, b.bufferSize)
	worker := func() {
		done := r.ctx.Done()
		for {
			select {
			case fn := <-r.runnersCtx:
				fn(r.ctx)
			case fn := <-r.runners:
				fn()
			case <-done:
				return
			}
		}
	}
	for started := 0; started < b.workerCount; started++ {
		go worker()
	}
	return r
}
''')]),
("r-run-send-helper","",[F(RU,"func (r *Runner) Run(",'''
func send[T any](ctx context.Context, ch chan<- T, v T) bool {
	select {
	case ch <- v:
		return true
	case <-ctx.Done():
		return false
	}
}

func (r *Runner) Run(fn RunnerFn) {
	send(r.ctx, r.runners, fn)
}
'''),F(RU,"func (r *Runner) RunWithContext(",'''
func (r *Runner) RunWithContext(fn RunnerContextFn) {
	send(r.ctx, r.runnersCtx, fn)
}
''')]),
("r-run-go-mut","W01",[F(RU,"func (r *Runner) Run(",'''
func (r *Runner) Run(fn RunnerFn) {
	select {
	case <-r.ctx.Done():
	case r.runners <- fn:
	default:
	}
}
''')]),
("r-one-worker-less-mut","W01",[F(RU,"func (b *RunnerBuilder) Build()",'''
func (b *RunnerBuilder) Build() *Runner {
	r := &Runner{
		ctx:        b.ctx,
		runners:    make(chan RunnerFn, b.bufferSize),
		runnersCtx: make(chan RunnerContextFn, b.bufferSize),
	}
	for i := 0; i < b.workerCount; i++ {
		go func() {
			for {
				select {
				case <-r.ctx.Done():
					return
				case fn := <-r.runners:
					fn()
				case fn := <-r.runnersCtx:
					fn(r.ctx)
					return
				}
			}
		}()
	}
	return r
}
''')]),
("p-build-flat","",[F(PR,"func (fb *ProcessorBuilder[E, S]) Build()",'''
func (fb *ProcessorBuilder[E, S]) Build() func(event E, state S) error {
	routes := fb.routes
	return func(event E, state S) error {
		for i := range routes {
			if err := routes[i].run(event, state); err != nil {
				return err
			}
		}
		return nil
	}
}

func (r ProcessorRouter[E, S]) run(event E, state S) error {
	for _, step := range r.chain {
		if err := step(event, state); err != nil {
			return err
		}
	}
	return nil
}
''')]),
("p-build-method-value","",[F(PR,"func (fb *ProcessorBuilder[E, S]) Build()",'''
func (fb *ProcessorBuilder[E, S]) Build() func(event E, state S) error {
	return (&built[E, S]{routes: fb.routes}).process
}

type built[E, S any] struct {
	routes []ProcessorRouter[E, S]
}

func (p *built[E, S]) process(event E, state S) (err error) {
	for _, route := range p.routes {
		for j := 0; j < len(route.chain); j++ {
			err = route.chain[j](event, state)
			if err != nil {
				return
			}
		}
	}
	return
}
''')]),
("p-build-shadow-mut","E01",[F(PR,"func (fb *ProcessorBuilder[E, S]) Build()",'''
func (fb *ProcessorBuilder[E, S]) Build() func(event E, state S) error {
	routes := fb.routes
	return func(event E, state S) (err error) {
		for _, route := range routes {
			for _, fn := range route.chain {
				if err = fn(event, state); err != nil {
					break
				}
			}
		}
		return err
	}
}
''')]),
("p-on-var","",[F(PR,"func (rb *ProcessorRouterBuilder[E, S]) On(",'''
func (rb *ProcessorRouterBuilder[E, S]) On(cond func(event E, state S) bool) *ProcessorRouterBuilder[E, S] {
	step := func(event E, state S) error {
		if cond(event, state) {
			return nil
		}
		return errors.New("filter not passed")
	}
	return rb.Do(step)
}
''')]),
("p-route-inline","",[F(PR,"func (fb *ProcessorBuilder[E, S]) Route(",'''
func (fb *ProcessorBuilder[E, S]) Route(rb func(r *ProcessorRouterBuilder[E, S])) *ProcessorBuilder[E, S] {
	router := &ProcessorRouterBuilder[E, S]{parent: fb}
	rb(router)
	fb.routes = append(fb.routes, ProcessorRouter[E, S]{chain: router.chain})
	return fb
}
''')]),
("p-routeon-index","",[F(PR,"func (fb *ProcessorBuilder[E, S]) RouteOn(",'''
func (fb *ProcessorBuilder[E, S]) RouteOn(cond func(event E) bool, do ...func(event E, state S) error) *ProcessorBuilder[E, S] {
	return fb.Route(func(rb *ProcessorRouterBuilder[E, S]) {
		for i := range do {
			rb.OnEvent(cond)
			rb.Do(do[i])
		}
	})
}
''')]),
("n-read-shared","",[F(RD,"func ReadNBytes(",'''
func ReadNBytes(conn net.Conn, n int) ([]byte, error) {
	return readFull(conn, n)
}

func readFull(r io.Reader, n int) ([]byte, error) {
	buff := make([]byte, n)
	read, err := io.ReadFull(r, buff)
	switch {
	case err != nil:
		return nil, err
	case read != n:
		return buff, fmt.Errorf("failed to read packet in full")
	}
	return buff, nil
}
'''),F(RD,"func ReadNBytesWithTimeout(",'''
func ReadNBytesWithTimeout(conn net.Conn, n int, timeout time.Duration) (data []byte, err error) {
	deadline := time.Now().Add(timeout)
	if err = conn.SetReadDeadline(deadline); err != nil {
		return nil, err
	}
	defer func() {
		_ = conn.SetReadDeadline(time.Time{})
	}()
	return ReadNBytes(conn, n)
}
''')]),
("n-read-explicit-clear","",[F(RD,"func ReadNBytesWithTimeout(",'''
func ReadNBytesWithTimeout(conn net.Conn, n int, timeout time.Duration) ([]byte, error) {
	if err := conn.SetReadDeadline(time.Now().Add(timeout)); err != nil {
		return nil, err
	}
	data, err := ReadNBytes(conn, n)
	conn.SetReadDeadline(time.Time{})
	return data, err
}
''')]),
("n-read-loop","",[F(RD,"func ReadNBytes(",'''
func ReadNBytes(conn net.Conn, n int) ([]byte, error) {
	buff := make([]byte, n)
	for read := 0; read < n; {
		k, err := conn.Read(buff[read:])
		read += k
		if err != nil && read < n {
			return nil, err
		}
	}
	_ = io.EOF
	_ = fmt.Sprint()
	return buff, nil
}
''')]),
("n-read-atleast","",[F(RD,"func ReadNBytes(",'''
func ReadNBytes(conn net.Conn, n int) ([]byte, error) {
	buff := make([]byte, n)
	if _, err := io.ReadAtLeast(conn, buff, n); err != nil {
		return nil, err
	}
	return buff, nil
}
''')]),
("n-read-atleast-mut","N01",[F(RD,"func ReadNBytes(",'''
func ReadNBytes(conn net.Conn, n int) ([]byte, error) {
	buff := make([]byte, n)
	if _, err := io.ReadAtLeast(conn, buff, 1); err != nil {
		return nil, err
	}
	return buff, nil
}
''')]),
("n-deadline-error-leak-mut","N01",[F(RD,"func ReadNBytesWithTimeout(",'''
func ReadNBytesWithTimeout(conn net.Conn, n int, timeout time.Duration) ([]byte, error) {
	if err := conn.SetReadDeadline(time.Now().Add(timeout)); err != nil {
		return nil, err
	}
	data, err := ReadNBytes(conn, n)
	if err != nil {
		return nil, err
	}
	conn.SetReadDeadline(time.Time{})
	return data, nil
}
''')]),
("b-chunk-min","",[F(TB,"func Chunk(",'''
func Chunk(data []byte, size int) [][]byte {
	chunks := make([][]byte, 0, len(data)/size+1)
	for len(data) > size {
		chunks = append(chunks, data[:size])
		data = data[size:]
	}
	if len(data) > 0 {
		chunks = append(chunks, data)
	}
	return chunks
}
''')]),
("b-int-shift","",[F(TB,"func GetBytesFromInt(",'''
func GetBytesFromInt(data int, count int) []byte {
	bs := make([]byte, count)
	for i := range bs {
		bs[i] = byte(data)
		data >>= 8
	}
	return bs
}
''')]),
("b-int-from-back","",[F(TB,"func GetIntFromBytes(",'''
func GetIntFromBytes(data []byte) int {
	res := 0
	for i := len(data) - 1; i >= 0; i-- {
		res = res<<8 | int(data[i])
	}
	return res
}
''')]),
("b-int-plus","",[F(TB,"func GetIntFromBytes(",'''
func GetIntFromBytes(data []byte) (res int) {
	for i := 0; i < len(data); i++ {
		shift := uint(i) * 8
		res |= int(data[i]) << shift
	}
	return res
}
''')]),
("b-bool-append","",[F(TB,"func BoolArrayToByte(",'''
func BoolArrayToByte(data []bool) []byte {
	if len(data) == 0 {
		return nil
	}
	res := make([]byte, (len(data)+7)/8)
	for i, set := range data {
		if set {
			res[i/8] |= 1 << uint(i%8)
		}
	}
	return res
}
''')]),
("b-bool-to-array","",[F(TB,"func ByteToBoolArray(",'''
func ByteToBoolArray(data []byte, count ...int) []bool {
	res := make([]bool, 0, len(data)*8)
	for _, b := range data {
		for bit := uint(0); bit < 8; bit++ {
			res = append(res, (b>>bit)&1 == 1)
		}
	}
	if len(count) == 0 {
		return res
	}
	return res[:count[0]]
}
''')]),
("b-bool-inner-min","",[F(TB,"func BoolArrayToByte(",'''
func BoolArrayToByte(data []bool) []byte {
	var res []byte
	for start := 0; start < len(data); start += 8 {
		end := start + 8
		if end > len(data) {
			end = len(data)
		}
		res = append(res, packBits(data[start:end]))
	}
	return res
}

func packBits(bits []bool) (b byte) {
	for j, bit := range bits {
		if bit {
			b |= 1 << uint(j)
		}
	}
	return b
}
''')]),
("b-addsize-make","",[F(TB,"func AddSize32(",'''
func AddSize32(data []byte) []byte {
	res := make([]byte, 4+len(data))
	binary.LittleEndian.PutUint32(res, uint32(len(data)))
	copy(res[4:], data)
	return res
}
'''),F(TB,"func AddSize16(",'''
func AddSize16(data []byte) []byte {
	res := make([]byte, 2, 2+len(data))
	binary.LittleEndian.PutUint16(res, uint16(len(data)))
	return append(res, data...)
}
''')]),
("b-append-uint","",[F(TB,"func GetBytesFromUInt32(",'''
func GetBytesFromUInt32(len uint32) []byte {
	return binary.LittleEndian.AppendUint32(nil, len)
}
'''),F(TB,"func GetBytesFromUInt16(",'''
func GetBytesFromUInt16(len uint16) []byte {
	return []byte{byte(len), byte(len >> 8)}
}
''')]),
("b-copy-append","",[F(TB,"func CopyBytes(",'''
func CopyBytes(data []byte, l int) []byte {
	return append(make([]byte, 0, l), data[:l]...)
}
''')]),
("b-copy-alias-mut","N03",[F(TB,"func CopyBytes(",'''
func CopyBytes(data []byte, l int) []byte {
	return append(data[:0:0], data[:l]...)[:l:l]
}
''')]),
("b-alltrue-range","",[F(TB,"func CreateAllTrueBoolArray(",'''
func CreateAllTrueBoolArray(size int) []bool {
	arr := make([]bool, size)
	for i := range arr {
		arr[i] = true
	}
	return arr
}
''')]),
("b-pack-helper","",[F(TB,"func PackUint(",'''
func PackUint(order binary.ByteOrder, v interface{}) []byte {
	switch val := v.(type) {
	case uint8:
		return []byte{val}
	case uint16:
		buf := make([]byte, 2)
		order.PutUint16(buf, val)
		return buf
	case uint32:
		buf := make([]byte, 4)
		order.PutUint32(buf, val)
		return buf
	case uint64:
		buf := make([]byte, 8)
		order.PutUint64(buf, val)
		return buf
	}
	panic("unsupported type")
}
''')]),
("d-pointmove-abs","",[F(DI,"func IntPointMove(",'''
func IntPointMove(value int, shift int) int {
	for ; shift > 0; shift-- {
		value *= 10
	}
	for ; shift < 0; shift++ {
		value /= 10
	}
	return value
}
''')]),
("d-pointmove-helpers","",[F(DI,"func IntPointMove(",'''
func IntPointMove(value int, shift int) int {
	switch {
	case shift > 0:
		return scaleUp(value, shift)
	case shift < 0:
		return scaleDown(value, -shift)
	}
	return value
}

func scaleUp(value, n int) int {
	for i := 0; i < n; i++ {
		value *= 10
	}
	return value
}

func scaleDown(value, n int) int {
	for i := 0; i < n; i++ {
		value /= 10
	}
	return value
}
''')]),
("m-generic","",[F(MM,"func Min(",'''
type ordered interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~float32 | ~float64
}

func smaller[T ordered](a, b T) T {
	if a < b {
		return a
	}
	return b
}

func Min(a, b int) int { return smaller(a, b) 
}
'''),F(MM,"func Min64(",'''
func Min64(a, b int64) int64 {
	return smaller(a, b)
}
'''),F(MM,"func MinUInt8(",'''
func MinUInt8(a, b uint8) uint8 {
	return smaller(a, b)
}
'''),F(MM,"func MinFloat64(",'''
func MinFloat64(a, b float64) float64 {
	return smaller(a, b)
}
''')]),
("m-builtin","",[F(MM,"func Min(",'''
func Min(a, b int) int {
	return min(a, b)
}
'''),F(MM,"func MaxUInt16(",'''
func MaxUInt16(a, b uint16) uint16 {
	return max(a, b)
}
''')]),
("m-named-result","",[F(MM,"func Max(",'''
func Max(a, b int) (res int) {
	res = b
	if a >= b {
		res = a
	}
	return
}
''')]),
("a-gcm-helper","",[F(AE,"func (a *AES) Encrypt(",'''
func (a *AES) gcm() (cipher.AEAD, error) {
	block, err := aes.NewCipher(a.secretKey)
	if err != nil {
		return nil, err
	}
	return cipher.NewGCM(block)
}

func (a *AES) Encrypt(data []byte) ([]byte, error) {
	gcm, err := a.gcm()
	if err != nil {
		return nil, err
	}
	out := make([]byte, gcm.NonceSize(), gcm.NonceSize()+len(data)+gcm.Overhead())
	if _, err := rand.Read(out); err != nil {
		return nil, err
	}
	return gcm.Seal(out, out, data, nil), nil
}
'''),F(AE,"func (a *AES) Decrypt(",'''
var errShort = errors.New("cipher data too short")

func (a *AES) Decrypt(cipherData []byte) ([]byte, error) {
	gcm, err := a.gcm()
	if err != nil {
		return nil, err
	}
	n := gcm.NonceSize()
	if n > len(cipherData) {
		return nil, errShort
	}
	return gcm.Open(nil, cipherData[:n], cipherData[n:], nil)
}
''')]),
("a-nonce-readfull","",[("crypto/aes.go",'"crypto/rand"\n','"crypto/rand"\n\t"io"\n'),("crypto/aes.go","_, err = rand.Read(nonce)","_, err = io.ReadFull(rand.Reader, nonce)")]),
("a-seal-append","",[("crypto/aes.go","ciphertext := gcm.Seal(nonce, nonce, data, nil)\n\treturn ciphertext, nil","sealed := gcm.Seal(nil, nonce, data, nil)\n\treturn append(nonce, sealed...), nil")]),
("a-seal-short-nonce-mut","A01",[("crypto/aes.go","nonce := make([]byte, gcm.NonceSize())\n\t_, err = rand.Read(nonce)","nonce := make([]byte, gcm.NonceSize())\n\t_, err = rand.Read(nonce[:8])")]),
("h-md5-new","",[F(HA,"func GetMD5HashBytes(",'''
func GetMD5HashBytes(text string) []byte {
	h := md5.New()
	h.Write([]byte(text))
	return h.Sum(nil)
}
''')]),
("h-md5-share","",[F(HA,"func GetMD5Hash(",'''
func GetMD5Hash(text string) string {
	return hex.EncodeToString(GetMD5HashBytes(text))
}
''')]),
("h-md5-sprintf","",[("crypto/hash.go",'"encoding/hex"\n','"encoding/hex"\n\t"fmt"\n'),F(HA,"func GetMD5Hash(",'''
func GetMD5Hash(text string) string {
	_ = hex.ErrLength
	return fmt.Sprintf("%x", md5.Sum([]byte(text)))
}
''')]),
("f-addfile-noopen","",[F(FS,"func (b *CryptoFSBuilder) AddFile(",'''
func (b *CryptoFSBuilder) AddFile(path string) *CryptoFSBuilder {
	data, err := os.ReadFile(path)
	if err == nil {
		b.files[path] = file{FileName: path, Path: path, Data: data}
	}
	return b
}
''')]),
("f-addfolder-method","",[F(FS,"func (b *CryptoFSBuilder) AddFolder(",'''
func (b *CryptoFSBuilder) AddFolder(folderPath string) *CryptoFSBuilder {
	_ = filepath.Walk(path.Join(b.rootDir, folderPath), b.visit)
	return b
}

func (b *CryptoFSBuilder) visit(name string, info fs.FileInfo, err error) error {
	if err != nil {
		return err
	}
	f := file{FileName: info.Name(), Path: name, IsDirFlag: info.IsDir()}
	if f.IsDirFlag {
		f.Entries, err = listDir(name)
	} else {
		f.Data, err = os.ReadFile(name)
	}
	if err != nil {
		return err
	}
	b.files[name] = f
	return nil
}

func listDir(name string) ([]file, error) {
	entries, err := os.ReadDir(name)
	if err != nil {
		return nil, err
	}
	files := make([]file, 0, len(entries))
	for _, e := range entries {
		files = append(files, file{
			FileName:  e.Name(),
			Path:      filepath.Join(name, e.Name()),
			IsDirFlag: e.IsDir(),
		})
	}
	return files, nil
}
''')]),
("f-save-helpers","",[F(FS,"func (b *CryptoFSBuilder) Save(",'''
func (b *CryptoFSBuilder) encode() ([]byte, error) {
	buf := new(bytes.Buffer)
	if err := gob.NewEncoder(buf).Encode(b.files); err != nil {
		return nil, err
	}
	if b.aesSecret == nil {
		return buf.Bytes(), nil
	}
	return crypto.NewAES(b.aesSecret).Encrypt(buf.Bytes())
}

func (b *CryptoFSBuilder) Save() (err error) {
	data, err := b.encode()
	if err != nil {
		return err
	}
	target, err := os.Create(b.savePath)
	if err != nil {
		return err
	}
	defer func() {
		if cerr := target.Close(); err == nil {
			err = cerr
		}
	}()
	_, err = target.Write(data)
	return err
}
''')]),
("f-save-writefile","",[F(FS,"func (b *CryptoFSBuilder) Save(",'''
func (b *CryptoFSBuilder) Save() error {
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(b.files); err != nil {
		return err
	}
	data := buf.Bytes()
	if b.aesSecret != nil {
		sealed, err := crypto.NewAES(b.aesSecret).Encrypt(data)
		if err != nil {
			return err
		}
		data = sealed
	}
	return os.WriteFile(b.savePath, data, 0666)
}
''')]),
("f-save-shadow-mut","F01",[F(FS,"func (b *CryptoFSBuilder) Save(",'''
func (b *CryptoFSBuilder) Save() error {
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(b.files); err != nil {
		return err
	}
	data := buf.Bytes()
	if b.aesSecret != nil {
		data, err := crypto.NewAES(b.aesSecret).Encrypt(data)
		if err != nil {
			return err
		}
		_ = data
	}
	return os.WriteFile(b.savePath, data, 0666)
}
''')]),
("f-load-reader","",[F(FS,"func CryptoFSFromFile(",'''
func CryptoFSFromFile(path string, aesSecret []byte) (CryptoFS, error) {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	if aesSecret != nil {
		if data, err = crypto.NewAES(aesSecret).Decrypt(data); err != nil {
			return nil, err
		}
	}
	var files map[string]file
	if err = gob.NewDecoder(bytes.NewReader(data)).Decode(&files); err != nil {
		return nil, err
	}
	return &cryptoFS{files: files}, nil
}
''')]),
("f-open-ptr","",[F(FS,"func (c *cryptoFS) Open(",'''
func (c *cryptoFS) Open(path string) (fs.File, error) {
	if f, ok := c.files[path]; ok {
		res := new(openFile)
		res.file = f
		res.reader = bytes.NewReader(res.Data)
		return res, nil
	}
	return nil, fs.ErrNotExist
}
''')]),
("f-readdir-append","",[F(FS,"func (c *cryptoFS) ReadDir(",'''
func (c *cryptoFS) ReadDir(name string) ([]fs.DirEntry, error) {
	dir, ok := c.files[name]
	switch {
	case !ok:
		return nil, fs.ErrNotExist
	case !dir.IsDirFlag:
		return nil, errors.New("not a directory")
	}
	entries := make([]fs.DirEntry, 0, len(dir.Entries))
	for _, e := range dir.Entries {
		entries = append(entries, e)
	}
	return entries, nil
}
''')]),
("c-ids-helper","",[F(CO,"func CompareSlice[",'''
func idSet[T Ider](items []T) map[uint64]struct{} {
	ids := make(map[uint64]struct{}, len(items))
	for _, item := range items {
		ids[item.GetId()] = struct{}{}
	}
	return ids
}

func CompareSlice[T1, T2 Ider](current []T1, mod []T2) ([]T1, []T2, []T1) {
	currentIds, modIds := idSet(current), idSet(mod)
	var del, modify []T1
	for _, elem := range current {
		if _, ok := modIds[elem.GetId()]; ok {
			modify = append(modify, elem)
		} else {
			del = append(del, elem)
		}
	}
	var create []T2
	for _, elem := range mod {
		if _, ok := currentIds[elem.GetId()]; !ok {
			create = append(create, elem)
		}
	}
	return del, create, modify
}
''')]),
("c-filter-helper","",[F(CO,"func CompareSlice[",'''
func split[T Ider](items []T, ids map[uint64]bool) (in, out []T) {
	for _, item := range items {
		if ids[item.GetId()] {
			in = append(in, item)
			continue
		}
		out = append(out, item)
	}
	return in, out
}

func CompareSlice[T1, T2 Ider](current []T1, mod []T2) ([]T1, []T2, []T1) {
	currentMap := map[uint64]bool{}
	for i := range current {
		currentMap[current[i].GetId()] = true
	}
	modMap := map[uint64]bool{}
	for i := range mod {
		modMap[mod[i].GetId()] = true
	}
	modify, del := split(current, modMap)
	_, create := split(mod, currentMap)
	return del, create, modify
}
''')]),
("c-early-empty-mut","K01",[F(CO,"func CompareSlice[",'''
func CompareSlice[T1, T2 Ider](current []T1, mod []T2) ([]T1, []T2, []T1) {
	if len(mod) == 0 {
		return nil, nil, nil
	}
	currentMap := make(map[uint64]struct{})
	modMap := make(map[uint64]struct{})
	for _, elem := range current {
		currentMap[elem.GetId()] = struct{}{}
	}
	for _, elem := range mod {
		modMap[elem.GetId()] = struct{}{}
	}
	var del, modify []T1
	for _, elem := range current {
		if _, ok := modMap[elem.GetId()]; !ok {
			del = append(del, elem)
		} else {
			modify = append(modify, elem)
		}
	}
	var create []T2
	for _, elem := range mod {
		if _, ok := currentMap[elem.GetId()]; !ok {
			create = append(create, elem)
		}
	}
	return del, create, modify
}
''')]),
("z-unzip-readall-partial-mut","Z01",[F(ZI,"func GUnzipData(",'''
func GUnzipData(data []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(data))
	if err != nil {
		return nil, err
	}
	defer r.Close()
	return io.ReadAll(r)
}
''')]),
("z-unzip-copy","",[F(ZI,"func GUnzipData(",'''
func GUnzipData(data []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(data))
	if err != nil {
		return nil, err
	}
	var out bytes.Buffer
	if _, err := io.Copy(&out, r); err != nil {
		return nil, err
	}
	return out.Bytes(), nil
}
''')]),
("z-unzip-copyn-mut","Z01",[F(ZI,"func GUnzipData(",'''
func GUnzipData(data []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(data))
	if err != nil {
		return nil, err
	}
	var out bytes.Buffer
	if _, err := io.Copy(&out, io.LimitReader(r, 1<<20)); err != nil {
		return nil, err
	}
	return out.Bytes(), nil
}
''')]),
("z-zip-noflush","",[F(ZI,"func GZipData(",'''
func GZipData(data []byte) ([]byte, error) {
	out := new(bytes.Buffer)
	w := gzip.NewWriter(out)
	if _, err := w.Write(data); err != nil {
		return nil, err
	}
	if err := w.Close(); err != nil {
		return nil, err
	}
	return out.Bytes(), nil
}
''')]),
("z-zip-defer-mut","Z01",[F(ZI,"func GZipData(",'''
func GZipData(data []byte) ([]byte, error) {
	out := new(bytes.Buffer)
	w := gzip.NewWriter(out)
	defer w.Close()
	if _, err := w.Write(data); err != nil {
		return nil, err
	}
	if err := w.Flush(); err != nil {
		return nil, err
	}
	return out.Bytes(), nil
}
''')]),
]

F='crypto_fs/crypto_fs.go'
SAVE='''	data := buf.Bytes()
	if b.aesSecret != nil {
		aes := crypto.NewAES(b.aesSecret)
		data, err = aes.Encrypt(buf.Bytes())
		if err != nil {
			return err
		}
	}
	target, err := os.Create(b.savePath)
	if err != nil {
		return err
	}
	_, err = target.Write(data)
	if err != nil {
		target.Close()
		return err
	}
	return target.Close()
'''
SEAL=SAVE[:SAVE.index('	target, err')]
W=SAVE[SAVE.index('	target, err'):]
LOAD='''	f, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var buf bytes.Buffer
	if aesSecret != nil {
		aes := crypto.NewAES(aesSecret)
		decrypted, err := aes.Decrypt(f)
		if err != nil {
			return nil, err
		}
		buf.Write(decrypted)
	} else {
		buf.Write(f)
	}
	dec := gob.NewDecoder(&buf)
	err = dec.Decode(&cfs.files)
	if err != nil {
		return nil, err
	}
	return cfs, nil
'''
HANDLE='''type openFile struct {
	file
	reader *bytes.Reader
}

func (f *openFile) Read(i []byte) (int, error) {
	return f.reader.Read(i)
}

func (f *openFile) Close() error { return nil }
'''
NEWH='''	return &openFile{file: f, reader: bytes.NewReader(f.Data)}, nil
'''
LIST='''	entries := make([]fs.DirEntry, len(f.Entries))
	for i := 0; i < len(f.Entries); i++ {
		entries[i] = f.Entries[i]
	}
	return entries, nil
'''
WALK='''		if err != nil {
			return err
		}
		if info.IsDir() {
			entries, err := os.ReadDir(root)
			if err != nil {
				return err
			}
			var files []file
			for _, e := range entries {
				files = append(files, file{
					FileName:  e.Name(),
					Path:      filepath.Join(root, e.Name()),
					IsDirFlag: e.IsDir(),
				})
			}
			b.files[root] = file{
				FileName:  info.Name(),
				Path:      root,
				IsDirFlag: info.IsDir(),
				Entries:   files,
			}
			return nil
		}
		content, err := os.ReadFile(root)
		if err != nil {
			return err
		}
		b.files[root] = file{
			FileName:  info.Name(),
			Path:      root,
			IsDirFlag: info.IsDir(),
			Data:      content,
		}

		return nil
'''
ADD='''	of, err := os.Open(path)
	if err != nil {
		return b
	}
	defer of.Close()
	data, err := os.ReadFile(path)
	if err != nil {
		return b
	}
	f := file{
		FileName: of.Name(),
		Path:     path,
		Data:     data,
	}
	b.files[path] = f
	return b
'''
def e(old,new,*more): return [(F,old,new)]+[(F,a,b) for a,b in more]
M=[
# F01
('save-lensecret','F01',e('if b.aesSecret != nil {','if len(b.aesSecret) > 0 {')),
('save-write-buf','F01',e('target.Write(data)','target.Write(append(data[:0:0], buf.Bytes()...))')),
('save-always-plain-tmp','F01',e('	data := buf.Bytes()\n','	data := buf.Bytes()\n	if err = os.WriteFile(b.savePath+".bak", data, 0600); err != nil {\n		return err\n	}\n')),
('save-close-dropped','F01',e('	return target.Close()\n','	target.Close()\n	return nil\n')),
('save-defer-close','F01',e(W,'''	target, err := os.Create(b.savePath)
	if err != nil {
		return err
	}
	defer target.Close()
	_, err = target.Write(data)
	return err
''')),
('save-write-err-dropped','F01',e('	_, err = target.Write(data)\n	if err != nil {\n		target.Close()\n		return err\n	}\n','	target.Write(data)\n')),
('save-encode-err-dropped','F01',e('	err := enc.Encode(b.files)\n	if err != nil {\n		return err\n	}\n','	err := enc.Encode(b.files)\n')),
('save-enc-fallback','F01',e('''		data, err = aes.Encrypt(buf.Bytes())
		if err != nil {
			return err
		}
''','''		if sealed, e := aes.Encrypt(buf.Bytes()); e == nil {
			data = sealed
		}
''')),
('save-no-trunc','F01',e('os.Create(b.savePath)','os.OpenFile(b.savePath, os.O_RDWR|os.O_CREATE, 0644)')),
('save-append','F01',e('os.Create(b.savePath)','os.OpenFile(b.savePath, os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0644)')),
('save-enc-empty','F01',e(' {\n		aes := crypto.NewAES(b.aesSecret)\n',' && len(b.files) > 0 {\n		aes := crypto.NewAES(b.aesSecret)\n')),
('save-shortwrite','F01',e('target.Write(data)','target.Write(data[:len(data)-1])')),
('save-no-write-when-empty','F01',e('	target, err := os.Create','	if len(b.files) == 0 {\n		return nil\n	}\n	target, err := os.Create')),
('save-encode-after','F01',e('	err := enc.Encode(b.files)\n	if err != nil {\n		return err\n	}\n	data := buf.Bytes()\n','	data := buf.Bytes()\n	err := enc.Encode(b.files)\n	if err != nil {\n		return err\n	}\n')),
('save-key-prefix','F01',e('crypto.NewAES(b.aesSecret)','crypto.NewAES(b.aesSecret[:16])')),
('save-rename-lost','F01',e(W,'''	tmp := b.savePath + ".tmp"
	if err = os.WriteFile(tmp, data, 0644); err != nil {
		return err
	}
	os.Rename(tmp, b.savePath)
	return nil
''')),
('save-async-close','F01',e('	return target.Close()\n','	go target.Close()\n	return nil\n')),
('save-bufio-noflush','F01',e('	_, err = target.Write(data)','	_, err = bufio.NewWriter(target).Write(data)',('	"bytes"\n','	"bufio"\n	"bytes"\n'))),
('save-two-writes','F01',e('	_, err = target.Write(data)\n','	target.Write(buf.Bytes()[:0])\n	_, err = target.Write(data)\n')),
('save-createerr-ignored','F01',e('	target, err := os.Create(b.savePath)\n	if err != nil {\n		return err\n	}\n','	target, _ := os.Create(b.savePath)\n	if target == nil {\n		return nil\n	}\n')),
('same-save-writefile','',e(W,'	return os.WriteFile(b.savePath, data, 0666)\n')),
('same-save-atomic','',e(W,'''	tmp := b.savePath + ".tmp"
	if err := os.WriteFile(tmp, data, 0644); err != nil {
		return err
	}
	return os.Rename(tmp, b.savePath)
''')),
('same-save-atomic2','',e(W,'''	target, err := os.CreateTemp(filepath.Dir(b.savePath), "fs")
	if err != nil {
		return err
	}
	if _, err = target.Write(data); err != nil {
		target.Close()
		os.Remove(target.Name())
		return err
	}
	if err = target.Close(); err != nil {
		return err
	}
	return os.Rename(target.Name(), b.savePath)
''')),
('same-save-join','',e(W,'''	target, err := os.Create(b.savePath)
	if err != nil {
		return err
	}
	_, werr := target.Write(data)
	return errors.Join(werr, target.Close())
''')),
('same-save-named','',e(W,'''	target, err := os.Create(b.savePath)
	if err != nil {
		return err
	}
	_, err = target.Write(data)
	if cerr := target.Close(); err == nil {
		err = cerr
	}
	return err
''')),
('same-save-defer','',e('func (b *CryptoFSBuilder) Save() error {\n	var buf bytes.Buffer\n	enc := gob.NewEncoder(&buf)\n	err := enc','func (b *CryptoFSBuilder) Save() (err error) {\n	var buf bytes.Buffer\n	enc := gob.NewEncoder(&buf)\n	err = enc',(W,'''	target, err := os.Create(b.savePath)
	if err != nil {
		return err
	}
	defer func() {
		if cerr := target.Close(); err == nil {
			err = cerr
		}
	}()
	_, err = target.Write(data)
	return err
'''))),
('same-save-helpers','',e(SAVE,'''	data, err := b.seal(buf.Bytes())
	if err != nil {
		return err
	}
	return writeAll(b.savePath, data)
''',('type CryptoFS interface','''func (b *CryptoFSBuilder) seal(plain []byte) ([]byte, error) {
	if b.aesSecret == nil {
		return plain, nil
	}
	return crypto.NewAES(b.aesSecret).Encrypt(plain)
}

func writeAll(name string, data []byte) error {
	target, err := os.Create(name)
	if err != nil {
		return fmt.Errorf("create %s: %w", name, err)
	}
	if _, err = target.Write(data); err != nil {
		_ = target.Close()
		return fmt.Errorf("write %s: %w", name, err)
	}
	if err = target.Close(); err != nil {
		return fmt.Errorf("close %s: %w", name, err)
	}
	return nil
}

type CryptoFS interface'''),('	"errors"\n','	"errors"\n	"fmt"\n'))),
('same-save-switch','',e(SEAL,'''	var data []byte
	switch {
	case b.aesSecret == nil:
		data = buf.Bytes()
	default:
		if data, err = crypto.NewAES(b.aesSecret).Encrypt(buf.Bytes()); err != nil {
			return err
		}
	}
''')),
('same-save-iocopy','',e('target.Write(data)','io.Copy(target, bytes.NewReader(data))',('	"io/fs"\n','	"io"\n	"io/fs"\n'))),
('same-save-newbuffer','',e('	var buf bytes.Buffer\n	enc := gob.NewEncoder(&buf)\n	err := enc.Encode(b.files)','	buf := new(bytes.Buffer)\n	err := gob.NewEncoder(buf).Encode(b.files)')),
('same-save-sync','',e('	return target.Close()\n','	if err = target.Sync(); err != nil {\n		target.Close()\n		return err\n	}\n	return target.Close()\n')),
# F03
('load-nodecrypt-fallback','F03',e('''		if err != nil {
			return nil, err
		}
		buf.Write(decrypted)
''','''		if err != nil {
			decrypted = f
		}
		buf.Write(decrypted)
''')),
('load-lensecret','F03',e('if aesSecret != nil {','if len(aesSecret) > 0 {')),
('load-decode-err','F03',e('	err = dec.Decode(&cfs.files)\n	if err != nil {\n		return nil, err\n	}\n','	dec.Decode(&cfs.files)\n')),
('load-return-both','F03',e('	err = dec.Decode(&cfs.files)\n	if err != nil {\n		return nil, err\n	}\n	return cfs, nil\n','	return cfs, dec.Decode(&cfs.files)\n')),
('load-eof-ok','F03',e('	err = dec.Decode(&cfs.files)\n	if err != nil {\n','	err = dec.Decode(&cfs.files)\n	if err != nil && err != io.EOF {\n',('	"io/fs"\n','	"io"\n	"io/fs"\n'))),
('load-missing-ok','F03',e('	f, err := os.ReadFile(path)\n	if err != nil {\n','	f, err := os.ReadFile(path)\n	if os.IsNotExist(err) {\n		return cfs, nil\n	}\n	if err != nil {\n')),
('load-first-plain','F03',e('	if aesSecret != nil {\n','	if e := gob.NewDecoder(bytes.NewReader(f)).Decode(&cfs.files); e == nil {\n		return cfs, nil\n	}\n	if aesSecret != nil {\n')),
('load-limit','F03',e('		buf.Write(f)\n','		buf.Write(f[:len(f)/2])\n')),
('load-decrypt-err-shadow','F03',e('''		decrypted, err := aes.Decrypt(f)
		if err != nil {
			return nil, err
		}
		buf.Write(decrypted)
''','''		decrypted, err := aes.Decrypt(f)
		_ = err
		buf.Write(decrypted)
''')),
('load-nil-nil','F03',e('	f, err := os.ReadFile(path)\n	if err != nil {\n		return nil, err\n','	f, err := os.ReadFile(path)\n	if err != nil {\n		return nil, nil\n')),
('load-wrong-map','F03',e('	err = dec.Decode(&cfs.files)\n','	files := map[string]file{}\n	err = dec.Decode(&files)\n')),
('load-readerr-partial','F03',e('	f, err := os.ReadFile(path)\n	if err != nil {\n','	f, err := os.ReadFile(path)\n	if err != nil && len(f) == 0 {\n')),
('same-load-newreader','',e(LOAD,'''	data, err := os.ReadFile(path)
	if err != nil {
		return nil, fmt.Errorf("read: %w", err)
	}
	if aesSecret != nil {
		if data, err = crypto.NewAES(aesSecret).Decrypt(data); err != nil {
			return nil, err
		}
	}
	if err = gob.NewDecoder(bytes.NewReader(data)).Decode(&cfs.files); err != nil {
		return nil, err
	}
	return cfs, nil
''',('	"errors"\n','	"errors"\n	"fmt"\n'))),
('same-load-local','',e('	err = dec.Decode(&cfs.files)\n	if err != nil {\n		return nil, err\n	}\n	return cfs, nil\n','	var files map[string]file\n	if err = dec.Decode(&files); err != nil {\n		return nil, err\n	}\n	return &cryptoFS{files: files}, nil\n',('	cfs := &cryptoFS{}\n',''))),
('same-load-helper','',e(LOAD,'''	data, err := readArchive(path, aesSecret)
	if err != nil {
		return nil, err
	}
	if err := gob.NewDecoder(bytes.NewBuffer(data)).Decode(&cfs.files); err != nil {
		return nil, err
	}
	return cfs, nil
''',('func (c *cryptoFS) Open','''func readArchive(path string, secret []byte) ([]byte, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	data, err := io.ReadAll(f)
	if err != nil {
		return nil, err
	}
	if secret == nil {
		return data, nil
	}
	return crypto.NewAES(secret).Decrypt(data)
}

func (c *cryptoFS) Open'''),('	"io/fs"\n','	"io"\n	"io/fs"\n'))),
# F02
('open-shared-reader','F02',e(NEWH,'''	if f.reader == nil {
		f.reader = bytes.NewReader(f.Data)
		c.files[path] = f
	}
	return &openFile{file: f, reader: f.reader}, nil
''',('	Entries   []file\n}','	Entries   []file\n	reader    *bytes.Reader\n}'))),
('open-clean','F02',e('	f, ok := c.files[path]\n','	f, ok := c.files[strings.TrimSuffix(path, "/")]\n',('	"time"\n','	"strings"\n	"time"\n'))),
('open-missing-err','F02',e('	f, ok := c.files[path]\n	if !ok {\n		return nil, fs.ErrNotExist','	f, ok := c.files[path]\n	if !ok {\n		return nil, errors.New("no such file")')),
('open-missing-invalid','F02',e('	f, ok := c.files[path]\n	if !ok {\n		return nil, fs.ErrNotExist','	f, ok := c.files[path]\n	if !ok {\n		return nil, fs.ErrInvalid')),
('readdir-missing-nil','F02',e('	f, ok := c.files[name]\n	if !ok {\n		return nil, fs.ErrNotExist','	f, ok := c.files[name]\n	if !ok {\n		return nil, nil')),
('readdir-file-ok','F02',e('		return nil, errors.New("not a directory")\n','		return []fs.DirEntry{f}, nil\n',('	"errors"\n',''))),
('readdir-skip-last','F02',e('for i := 0; i < len(f.Entries); i++ {\n		entries','for i := 0; i < len(f.Entries)-1; i++ {\n		entries')),
('readdir-filter','F02',e(LIST,'''	entries := make([]fs.DirEntry, 0, len(f.Entries))
	for _, x := range f.Entries {
		if len(x.FileName) > 0 && x.FileName[0] != '.' {
			entries = append(entries, x)
		}
	}
	return entries, nil
''')),
('read-no-err','F02',e('	return f.reader.Read(i)\n','	n, _ := f.reader.Read(i)\n	return n, nil\n')),
('read-eof-early','F02',e('	return f.reader.Read(i)\n','	n, err := f.reader.Read(i)\n	if n < len(i) {\n		err = io.EOF\n	}\n	return n, err\n',('	"io/fs"\n','	"io"\n	"io/fs"\n'))),
('read-consume','F02',e(HANDLE,'''type openFile struct {
	file
}

func (f *openFile) Read(i []byte) (int, error) {
	if len(f.Data) == 0 {
		return 0, io.EOF
	}
	n := copy(i, f.Data)
	f.Data = f.Data[n:]
	return n, nil
}

func (f *openFile) Close() error { return nil }
''',(NEWH,'	return &openFile{file: f}, nil\n'),('	"io/fs"\n','	"io"\n	"io/fs"\n'))),
('read-off-wrong','F02',e(HANDLE,'''type openFile struct {
	file
	off int
}

func (f *openFile) Read(i []byte) (int, error) {
	if f.off >= len(f.Data) {
		return 0, io.EOF
	}
	n := copy(i, f.Data[f.off:])
	f.off += len(i)
	return n, nil
}

func (f *openFile) Close() error { return nil }
''',(NEWH,'	return &openFile{file: f}, nil\n'),('	"io/fs"\n','	"io"\n	"io/fs"\n'))),
('read-off-eof-off1','F02',e(HANDLE,'''type openFile struct {
	file
	off int
}

func (f *openFile) Read(i []byte) (int, error) {
	if f.off >= len(f.Data)-1 {
		return 0, io.EOF
	}
	n := copy(i, f.Data[f.off:])
	f.off += n
	return n, nil
}

func (f *openFile) Close() error { return nil }
''',(NEWH,'	return &openFile{file: f}, nil\n'),('	"io/fs"\n','	"io"\n	"io/fs"\n'))),
('size-path','F02',e('return int64(len(f.Data))','return int64(len(f.Path))')),
('name-path','F02 F04',e('	return f.FileName\n','	return f.Path\n')),
('mode-none','F02',e('		return fs.ModeDir\n','		return 0755\n')),
('mode-both','F02',e('	return fs.FileMode(0)\n','	return fs.ModeDir\n')),
('isdir-data','F02',e('	return f.IsDirFlag\n','	return f.Data == nil\n')),
('stat-empty','F02',e('func (f file) Stat() (fs.FileInfo, error) {\n	return f, nil','func (f file) Stat() (fs.FileInfo, error) {\n	return file{FileName: f.FileName, Data: f.Data}, nil')),
('info-noname','F02',e('func (f file) Info() (fs.FileInfo, error) {\n	return f, nil','func (f file) Info() (fs.FileInfo, error) {\n	return file{Path: f.Path, Data: f.Data, IsDirFlag: f.IsDirFlag}, nil')),
('open-delete','F02',e('	return &openFile{file: f, r','	delete(c.files, path)\n	return &openFile{file: f, r')),
('open-cache-handle','F02',e(NEWH,'''	if h, ok := c.handles[path]; ok {
		return h, nil
	}
	h := &openFile{file: f, reader: bytes.NewReader(f.Data)}
	if c.handles == nil {
		c.handles = map[string]*openFile{}
	}
	c.handles[path] = h
	return h, nil
''',('type cryptoFS struct {\n','type cryptoFS struct {\n	handles map[string]*openFile\n'))),
('same-offset','',e(HANDLE,'''type openFile struct {
	file
	off int
}

func (f *openFile) Read(i []byte) (int, error) {
	if f.off >= len(f.Data) {
		return 0, io.EOF
	}
	n := copy(i, f.Data[f.off:])
	f.off += n
	return n, nil
}

func (f *openFile) Close() error { return nil }
''',(NEWH,'	return &openFile{file: f}, nil\n'),('	"io/fs"\n','	"io"\n	"io/fs"\n'))),
('same-lazy','',e('	return f.reader.Read(i)\n','	if f.reader == nil {\n		f.reader = bytes.NewReader(f.Data)\n	}\n	return f.reader.Read(i)\n',(NEWH,'	return &openFile{file: f}, nil\n'))),
('same-embed-reader','',e(HANDLE,'''type openFile struct {
	info file
	*bytes.Reader
}

func (f *openFile) Stat() (fs.FileInfo, error) { return f.info, nil }
func (f *openFile) Close() error               { return nil }
''',(NEWH,'	return &openFile{info: f, Reader: bytes.NewReader(f.Data)}, nil\n'))),
('same-patherror','',e('	f, ok := c.files[path]\n	if !ok {\n		return nil, fs.ErrNotExist','	f, ok := c.files[path]\n	if !ok {\n		return nil, &fs.PathError{Op: "open", Path: path, Err: fs.ErrNotExist}')),
('same-errorf','',e('	f, ok := c.files[name]\n	if !ok {\n		return nil, fs.ErrNotExist','	f, ok := c.files[name]\n	if !ok {\n		return nil, fmt.Errorf("readdir %s: %w", name, fs.ErrNotExist)',('	"errors"\n','	"errors"\n	"fmt"\n'))),
('same-list-append','',e(LIST,'''	entries := make([]fs.DirEntry, 0, len(f.Entries))
	for _, x := range f.Entries {
		entries = append(entries, x)
	}
	return entries, nil
''')),
('same-list-range','',e('	for i := 0; i < len(f.Entries); i++ {\n		entries[i] = f.Entries[i]\n','	for i, x := range f.Entries {\n		entries[i] = x\n')),
('same-list-info','',e('entries[i] = f.Entries[i]','entries[i] = fs.FileInfoToDirEntry(f.Entries[i])')),
('same-find','',e('	f, ok := c.files[path]\n	if !ok {\n		return nil, fs.ErrNotExist\n	}\n','	f, err := c.find(path)\n	if err != nil {\n		return nil, err\n	}\n',('	f, ok := c.files[name]\n	if !ok {\n		return nil, fs.ErrNotExist\n	}\n','	f, err := c.find(name)\n	if err != nil {\n		return nil, err\n	}\n'),('func (c *cryptoFS) Open','''func (c *cryptoFS) find(name string) (file, error) {
	if f, ok := c.files[name]; ok {
		return f, nil
	}
	return file{}, fs.ErrNotExist
}

func (c *cryptoFS) Open'''))),
('same-ptr-entries','',e('	files map[string]file\n}\n\nfunc CryptoFSFromFile','	files map[string]*file\n}\n\nfunc CryptoFSFromFile',(NEWH,'	return &openFile{file: *f, reader: bytes.NewReader(f.Data)}, nil\n'))),
('same-ptr-recv','',e('func (f file) Mode() fs.FileMode {\n	if f.IsDirFlag {\n		return fs.ModeDir\n	}\n	return fs.FileMode(0)','func (f file) Mode() fs.FileMode {\n	mode := fs.FileMode(0444)\n	if f.IsDir() {\n		mode |= fs.ModeDir\n	}\n	return mode')),
('same-switch-listing','',e('''	if !f.IsDir() {
		return nil, errors.New("not a directory")
	}
''','''	if f.IsDirFlag == false {
		return nil, &fs.PathError{Op: "readdir", Path: name, Err: errors.New("not a directory")}
	}
''')),
('same-closed','',e(HANDLE,'''type openFile struct {
	file
	reader *bytes.Reader
	closed bool
}

func (f *openFile) Read(i []byte) (int, error) {
	if f.closed {
		return 0, fs.ErrClosed
	}
	n, err := f.reader.Read(i)
	return n, err
}

func (f *openFile) Close() error {
	f.closed = true
	return nil
}
''')),
('same-openptr','',e('type openFile struct {\n	file\n','type openFile struct {\n	*file\n',('&openFile{file: f,','&openFile{file: &f,'))),
# F04
('add-nofile-entry','F04',e('	data, err := os.ReadFile(path)\n	if err != nil {\n		return b\n	}\n','	data, _ := os.ReadFile(path)\n')),
('add-base-key','F04',e('	b.files[path] = f\n','	b.files[filepath.Base(path)] = f\n')),
('add-skip-empty','F04',e('	f := file{\n		FileName: of.Name(),','	if len(data) == 0 {\n		return b\n	}\n	f := file{\n		FileName: of.Name(),')),
('add-keep-first','F04',e('	b.files[path] = f\n	return b','	if _, ok := b.files[path]; !ok {\n		b.files[path] = f\n	}\n	return b')),
('add-partial','F04',e('	data, err := os.ReadFile(path)\n','	data := make([]byte, 4096)\n	n, err := of.Read(data)\n	data = data[:n]\n')),
('walk-no-err','F04',e('		if err != nil {\n			return err\n		}\n		if info.IsDir() {','		if info.IsDir() {')),
('walk-err-continue','F04',e('		content, err := os.ReadFile(root)\n		if err != nil {\n			return err\n		}\n','		content, _ := os.ReadFile(root)\n')),
('walk-hidden','F04',e("		if info.IsDir() {\n","		if info.Name()[0] == '.' {\n			return nil\n		}\n		if info.IsDir() {\n")),
('walk-skipdir','F04',e('				Entries:   files,\n			}\n			return nil\n','				Entries:   files,\n			}\n			if len(files) == 0 {\n				return filepath.SkipDir\n			}\n			return filepath.SkipAll\n')),
('walk-list-files-only','F04',e('			for _, e := range entries {\n','			for _, e := range entries {\n				if !e.Type().IsRegular() && !e.IsDir() {\n					continue\n				}\n')),
('walk-entry-path','F04',e('filepath.Join(root, e.Name())','filepath.Join(folderPath, e.Name())')),
('walk-entry-kind','F04',e('				IsDirFlag: info.IsDir(),\n				Entries','				Entries')),
('walk-sub-kind','F04',e('					IsDirFlag: e.IsDir(),\n','')),
('walk-sub-name','F04',e('					FileName:  e.Name(),','					FileName:  info.Name(),')),
('walk-name-root','F04',e('			FileName:  info.Name(),\n			Path:      root,\n			IsDirFlag: info.IsDir(),\n			Data','			FileName:  root,\n			Path:      root,\n			IsDirFlag: info.IsDir(),\n			Data')),
('walk-root-missing','F04',e('	folderPath = path.Join(b.rootDir, folderPath)\n','	if b.rootDir != "." {\n		folderPath = path.Join(b.rootDir, folderPath)\n	}\n')),
('walk-readdir-err','F04',e('			entries, err := os.ReadDir(root)\n			if err != nil {\n				return err\n			}\n','			entries, _ := os.ReadDir(root)\n')),
('walk-content-of-folder','F04',e('os.ReadFile(root)','os.ReadFile(path.Join(folderPath, info.Name()))')),
('same-add-simple','',e(ADD,'''	data, err := os.ReadFile(path)
	if err != nil {
		return b
	}
	b.files[path] = file{FileName: path, Path: path, Data: data}
	return b
''')),
('same-add-readall','',e('os.ReadFile(path)\n	if err != nil {\n		return b','io.ReadAll(of)\n	if err != nil {\n		return b',('	"io/fs"\n','	"io"\n	"io/fs"\n'))),
('same-add-ok','',e(ADD,'''	if data, err := os.ReadFile(path); err == nil {
		b.files[path] = file{FileName: path, Path: path, Data: data, IsDirFlag: false}
	}
	return b
''')),
('same-walk-split','',e(WALK,'''		if err != nil {
			return err
		}
		var f file
		if info.IsDir() {
			f, err = readFolder(root)
		} else {
			f, err = readFile(root)
		}
		if err != nil {
			return err
		}
		f.FileName = info.Name()
		f.Path = root
		b.files[root] = f
		return nil
''',('type CryptoFS interface','''func readFolder(root string) (file, error) {
	entries, err := os.ReadDir(root)
	if err != nil {
		return file{}, err
	}
	files := make([]file, len(entries))
	for i, e := range entries {
		files[i] = file{FileName: e.Name(), Path: filepath.Join(root, e.Name()), IsDirFlag: e.IsDir()}
	}
	return file{IsDirFlag: true, Entries: files}, nil
}

func readFile(root string) (file, error) {
	data, err := os.ReadFile(root)
	return file{Data: data}, err
}

type CryptoFS interface'''))),
('same-walk-cap','',e('			var files []file\n			for','			files := make([]file, 0, len(entries))\n			for')),
('same-walk-method','',e('filepath.Walk(folderPath, func(root string, info fs.FileInfo, err error) error {\n'+WALK+'	})','filepath.Walk(folderPath, b.visit)',('type CryptoFS interface','func (b *CryptoFSBuilder) visit(root string, info fs.FileInfo, err error) error {\n'+WALK+'}\n\ntype CryptoFS interface'))),
('same-walk-walkdir','',e('filepath.Walk(folderPath, func(root string, info fs.FileInfo, err error)','filepath.WalkDir(folderPath, func(root string, info fs.DirEntry, err error)')),
('same-walk-ignore','',e('	err := filepath.Walk','	_ = filepath.Walk',('	if err != nil {\n		return b\n	}\n	return b\n}\n\nfunc (b *CryptoFSBuilder) WithSavePath','	return b\n}\n\nfunc (b *CryptoFSBuilder) WithSavePath'))),
('same-walk-skip-unreadable','',e('		content, err := os.ReadFile(root)\n		if err != nil {\n			return err\n		}\n','		content, err := os.ReadFile(root)\n		if err != nil {\n			return nil\n		}\n')),
]

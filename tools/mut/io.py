A="crypto/aes.go"; HS="crypto/hash.go"; Z="zip/gzip.go"; N="net/read.go"
import os,glob
Z=[os.path.relpath(f,"/repo") for f in glob.glob("/repo/zip/*.go") if not f.endswith("_test.go")][0]
NONCE='''	nonce := make([]byte, gcm.NonceSize())
	_, err = rand.Read(nonce)
	if err != nil {
		return nil, err
	}
'''
SEAL='''	ciphertext := gcm.Seal(nonce, nonce, data, nil)
	return ciphertext, nil
'''
GCM='''	aesInst, err := aes.NewCipher(a.secretKey)
	if err != nil {
		return nil, err
	}

	gcm, err := cipher.NewGCM(aesInst)
	if err != nil {
		return nil, err
	}
'''
ENC="func (a *AES) Encrypt(data []byte) ([]byte, error) {\n"
DEC="func (a *AES) Decrypt(cipherData []byte) ([]byte, error) {\n"
CHK='''	if len(cipherData) < nonceSize {
		return nil, errors.New("cipher data too short")
	}
'''
SPLIT="	nonce, ciphertext := cipherData[:nonceSize], cipherData[nonceSize:]\n"
OPEN='''	plaintext, err := gcm.Open(nil, nonce, ciphertext, nil)
	if err != nil {
		return nil, err
	}

	return plaintext, nil
'''
HELP='''
func (a *AES) aead() (cipher.AEAD, error) {
	aesInst, err := aes.NewCipher(a.secretKey)
	if err != nil {
		return nil, err
	}
	return cipher.NewGCM(aesInst)
}
'''
UN='''	var resB bytes.Buffer
	_, err = resB.ReadFrom(r)
	if err != nil {
		return
	}
	resData = resB.Bytes()
	return
'''
GZ='''	if err = gz.Close(); err != nil {
		return
	}
	compressedData = b.Bytes()
	return
'''
FL='''	if err = gz.Flush(); err != nil {
		return
	}
'''
RD='''	buff := make([]byte, n)
	nRead, err := io.ReadFull(conn, buff)
	if err != nil {
		return nil, err
	}
	if nRead != n {
		return buff, fmt.Errorf("failed to read packet in full")
	}
	return buff, nil
'''
M=[
 ("a1-nonce-zero","A01",[(A,NONCE,"	nonce := make([]byte, gcm.NonceSize())\n	_ = rand.Reader\n")]),
 ("a1-nonce-err-ignored","A01",[(A,NONCE,"	nonce := make([]byte, gcm.NonceSize())\n	_, _ = rand.Read(nonce)\n")]),
 ("a1-nonce-short","A01",[(A,NONCE,NONCE.replace("rand.Read(nonce)","rand.Read(nonce[:8])"))]),
 ("a1-nonce-stored","A01",[(A,"	secretKey []byte\n}","	secretKey []byte\n	nonce []byte\n}"),(A,NONCE,'''	if a.nonce == nil {
		a.nonce = make([]byte, gcm.NonceSize())
		if _, err = rand.Read(a.nonce); err != nil {
			return nil, err
		}
	}
	nonce := a.nonce
''')]),
 ("a1-nonce-from-key","A01",[(A,NONCE,NONCE+"	copy(nonce, a.secretKey)\n")]),
 ("a1-nonce-xor","A01",[(A,NONCE,NONCE+"	nonce[0] = 0\n")]),
 ("a1-nonprefix","A01",[(A,SEAL,"	ciphertext := gcm.Seal(nil, nonce, data, nil)\n	return ciphertext, nil\n")]),
 ("a1-part","A01",[(A,SEAL,"	ciphertext := gcm.Seal(nonce, nonce, data[:len(data)&^15], nil)\n	return ciphertext, nil\n")]),
 ("a1-empty-plain","A01",[(A,ENC,ENC+"	if len(data) == 0 {\n		return data, nil\n	}\n")]),
 ("a1-suffix","A01",[(A,SEAL,"	return append(gcm.Seal(nil, nonce, data, nil), nonce...), nil\n")]),
 ("a1-seal-len","A01",[(A,SEAL,"	ciphertext := gcm.Seal(nonce[:0], nonce, data, nil)\n	return ciphertext, nil\n")]),
 ("a1-truncated-key","A01",[(A,"&AES{secretKey: secretKey}","&AES{secretKey: secretKey[:16]}")]),
 ("a1-swallow","A01",[(A,ENC+GCM,ENC+'''	aesInst, err := aes.NewCipher(a.secretKey)
	if err != nil {
		return data, nil
	}

	gcm, err := cipher.NewGCM(aesInst)
	if err != nil {
		return nil, err
	}
''')]),
 ("same-a1-readfull","",[(A,"_, err = rand.Read(nonce)","_, err = io.ReadFull(rand.Reader, nonce)"),(A,'	"errors"\n','	"errors"\n	"io"\n')]),
 ("same-a1-helper","",[(A,GCM,"	gcm, err := a.aead()\n	if err != nil {\n		return nil, err\n	}\n"),(A,"func NewAES",HELP+"\nfunc NewAES")]),
 ("same-a1-append","",[(A,SEAL,"	return append(nonce, gcm.Seal(nil, nonce, data, nil)...), nil\n")]),
 ("same-a1-prealloc","",[(A,SEAL,'''	out := make([]byte, 0, len(nonce)+len(data)+gcm.Overhead())
	out = append(out, nonce...)
	return gcm.Seal(out, nonce, data, nil), nil
''')]),
 ("same-a1-copy","",[(A,SEAL,'''	sealed := gcm.Seal(nil, nonce, data, nil)
	out := make([]byte, len(nonce)+len(sealed))
	copy(out, nonce)
	copy(out[len(nonce):], sealed)
	return out, nil
''')]),
 ("same-a1-keycopy","",[(A,"return &AES{secretKey: secretKey}","key := append([]byte(nil), secretKey...)\n	return &AES{secretKey: key}")]),
 ("same-a1-wrap","",[(A,'''	_, err = rand.Read(nonce)
	if err != nil {
		return nil, err
	}''','''	if _, err = rand.Read(nonce); err != nil {
		return nil, fmt.Errorf("nonce: %w", err)
	}'''),(A,'	"errors"\n','	"errors"\n	"fmt"\n')]),
 ("same-a1-nonce-helper","",[(A,NONCE,'''	nonce, err := newNonce(gcm.NonceSize())
	if err != nil {
		return nil, err
	}
'''),(A,"func NewAES",'''func newNonce(size int) ([]byte, error) {
	b := make([]byte, size)
	if _, err := rand.Read(b); err != nil {
		return nil, err
	}
	return b, nil
}

func NewAES''')]),
 ("a2-nocheck","A02",[(A,CHK,""),(A,'	"errors"\n',"")]),
 ("a2-check-off","A02",[(A,"len(cipherData) < nonceSize","len(cipherData) < nonceSize-1")]),
 ("a2-empty-ok","A02",[(A,CHK,"	if len(cipherData) == 0 {\n		return nil, nil\n	}\n"+CHK)]),
 ("a2-open-ignored","A02",[(A,OPEN,"	plaintext, _ := gcm.Open(nil, nonce, ciphertext, nil)\n	return plaintext, nil\n")]),
 ("a2-fallback","A02",[(A,OPEN,'''	plaintext, err := gcm.Open(nil, nonce, ciphertext, nil)
	if err != nil {
		return cipherData, nil
	}
	return plaintext, nil
''')]),
 ("a2-data-with-err","A02",[(A,OPEN,'''	plaintext, err := gcm.Open(nil, nonce, ciphertext, nil)
	if err != nil {
		return ciphertext, err
	}
	return plaintext, nil
''')]),
 ("a2-split-16","A02",[(A,SPLIT,"	nonce, ciphertext := cipherData[:12], cipherData[12:len(cipherData):len(cipherData)]\n"),(A,"len(cipherData) < nonceSize","nonceSize > 0 && len(cipherData) < 4")]),
 ("a2-append-dst","A02",[(A,"gcm.Open(nil, nonce","gcm.Open(nonce, nonce")]),
 ("same-a2-overhead","",[(A,"len(cipherData) < nonceSize","len(cipherData) < nonceSize+gcm.Overhead()")]),
 ("same-a2-direct","",[(A,OPEN,"	return gcm.Open(nil, nonce, ciphertext, nil)\n")]),
 ("same-a2-inv","",[(A,CHK+SPLIT+"\n"+OPEN,'''	if len(cipherData) >= nonceSize {
		return gcm.Open(nil, cipherData[:nonceSize], cipherData[nonceSize:], nil)
	}
	return nil, errors.New("cipher data too short")
''')]),
 ("same-a2-splithelper","",[(A,CHK+SPLIT,'''	nonce, ciphertext, err := split(cipherData, nonceSize)
	if err != nil {
		return nil, err
	}
'''),(A,"func NewAES",'''func split(data []byte, at int) ([]byte, []byte, error) {
	if at > len(data) {
		return nil, nil, errors.New("cipher data too short")
	}
	return data[:at], data[at:], nil
}

func NewAES''')]),
 ("same-a2-inplace","",[(A,"gcm.Open(nil, nonce","gcm.Open(ciphertext[:0], nonce")]),
 ("j1-lower","J01",[(HS,"func GetMD5Hash(text string) string {\n","func GetMD5Hash(text string) string {\n	if text == \"\" {\n		return \"\"\n	}\n")]),
 ("j1-trunc","J01",[(HS,"	return hash[:]\n","	return hash[:15]\n")]),
 ("j1-tweak","J01",[(HS,"	return hash[:]\n","	hash[0] &= 0x7f\n	return hash[:]\n")]),
 ("j1-tweak2","J01",[(HS,"	return hash[:]\n","	out := make([]byte, md5.Size)\n	copy(out, hash[:])\n	out[3]++\n	return out\n")]),
 ("j1-tweak3","J01",[(HS,"	return hash[:]\n","	out := hash[:]\n	out[0] = 0\n	return out\n")]),
 ("j1-half","J01",[(HS,"return hex.EncodeToString(hash[:])","return hex.EncodeToString(hash[8:])")]),
 ("same-j1-share","",[(HS,'''	hash := md5.Sum([]byte(text))
	return hex.EncodeToString(hash[:])''','''	return hex.EncodeToString(GetMD5HashBytes(text))''')]),
 ("same-j1-new","",[(HS,'''	hash := md5.Sum([]byte(text))
	return hash[:]''','''	h := md5.New()
	h.Write([]byte(text))
	return h.Sum(nil)''')]),
 ("same-j1-iowrite","",[(HS,'''	hash := md5.Sum([]byte(text))
	return hash[:]''','''	h := md5.New()
	_, _ = io.WriteString(h, text)
	return h.Sum(nil)'''),(HS,'	"encoding/hex"\n','	"encoding/hex"\n	"io"\n')]),
 ("same-j1-sprintf","",[(HS,"hex.EncodeToString(hash[:])",'fmt.Sprintf("%x", hash)'),(HS,'	"encoding/hex"\n','	"fmt"\n')]),
 ("same-j1-copy","",[(HS,"	return hash[:]\n","	out := make([]byte, md5.Size)\n	copy(out, hash[:])\n	return out\n")]),
 ("same-j1-sliceappend","",[(HS,"	return hash[:]\n","	return append([]byte(nil), hash[:]...)\n")]),
 ("j1-sum-prefix","J01",[(HS,'''	hash := md5.Sum([]byte(text))
	return hash[:]''','''	return md5.New().Sum([]byte(text))''')]),
 ("z-noclose","Z01",[(Z,GZ,"	compressedData = b.Bytes()\n	return\n")]),
 ("z-deferclose","Z01",[(Z,"	gz := gzip.NewWriter(&b)\n","	gz := gzip.NewWriter(&b)\n	defer gz.Close()\n"),(Z,GZ,"	compressedData = b.Bytes()\n	return\n")]),
 ("z-close-after","Z01",[(Z,GZ,"	compressedData = b.Bytes()\n	err = gz.Close()\n	return\n")]),
 ("z-close-unchecked","Z01",[(Z,GZ,"	_ = gz.Close()\n	compressedData = b.Bytes()\n	return\n")]),
 ("z-empty","Z01",[(Z,"	var b bytes.Buffer\n	gz","	if len(data) == 0 {\n		return data, nil\n	}\n	var b bytes.Buffer\n	gz")]),
 ("z-read-ignored","Z01",[(Z,UN,"	var resB bytes.Buffer\n	_, _ = resB.ReadFrom(r)\n	resData = resB.Bytes()\n	return\n")]),
 ("z-partial-on-err","Z01",[(Z,UN,"	var resB bytes.Buffer\n	_, err = resB.ReadFrom(r)\n	resData = resB.Bytes()\n	return\n")]),
 ("z-limit","Z01",[(Z,"resB.ReadFrom(r)","resB.ReadFrom(io.LimitReader(r, 1<<20))")]),
 ("z-eof-ok","Z01",[(Z,UN,UN.replace("if err != nil {","if err == io.ErrUnexpectedEOF {\n		err = nil\n	}\n	if err != nil {"))]),
 ("z-write-twice","Z01",[(Z,FL,FL+"	if _, err = gz.Write(nil); err != nil {\n		return\n	}\n")]),
 ("same-z-noflush","",[(Z,FL,"")]),
 ("same-z-readall","",[(Z,UN,"	resData, err = io.ReadAll(r)\n	if err != nil {\n		return nil, err\n	}\n	return resData, nil\n")]),
 ("same-z-zr-close","",[(Z,'''	var r io.Reader
	r, err = gzip.NewReader(b)
''','''	var r *gzip.Reader
	r, err = gzip.NewReader(b)
'''),(Z,UN,'''	defer r.Close()
	out, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	return out, nil
''')]),
 ("same-z-bytesreader","",[(Z,"bytes.NewBuffer(data)","bytes.NewReader(data)")]),
 ("same-z-iocopy","",[(Z,"_, err = resB.ReadFrom(r)","_, err = io.Copy(&resB, r)")]),
 ("same-z-level","",[(Z,"	gz := gzip.NewWriter(&b)\n","	gz, err := gzip.NewWriterLevel(&b, gzip.BestSpeed)\n	if err != nil {\n		return nil, err\n	}\n")]),
 ("same-z-named","",[(Z,GZ,"	if err = gz.Close(); err == nil {\n		compressedData = b.Bytes()\n	}\n	return\n")]),
 ("same-z-newbuffer","",[(Z,"	var b bytes.Buffer\n	gz := gzip.NewWriter(&b)\n","	b := new(bytes.Buffer)\n	gz := gzip.NewWriter(b)\n")]),
 ("same-z-helper","",[(Z,'''	_, err = gz.Write(data)
	if err != nil {
		return
	}
'''+FL+GZ,'''	if err = finish(gz, data); err != nil {
		return
	}
	compressedData = b.Bytes()
	return
'''),(Z,"func GZipData",'''func finish(w *gzip.Writer, data []byte) error {
	if _, err := w.Write(data); err != nil {
		return err
	}
	if err := w.Flush(); err != nil {
		return err
	}
	return w.Close()
}

func GZipData''')]),
 ("n1-read","N01",[(N,"io.ReadFull(conn, buff)","conn.Read(buff)"),(N,'	"io"\n',"")]),
 ("n1-atleast","N01",[(N,"io.ReadFull(conn, buff)","io.ReadAtLeast(conn, buff, 1)")]),
 ("n1-bufio","N01",[(N,"io.ReadFull(conn, buff)","io.ReadFull(bufio.NewReader(conn), buff)"),(N,'	"fmt"\n','	"bufio"\n	"fmt"\n')]),
 ("n1-eof-ok","N01",[(N,'''	if err != nil {
		return nil, err
	}
	if nRead''','''	if err != nil && err != io.ErrUnexpectedEOF {
		return nil, err
	}
	if false && nRead''')]),
 ("n1-noclear","N01",[(N,"	defer conn.SetReadDeadline(time.Time{})\n","")]),
 ("n1-deadline-both","N01",[(N,"	defer conn.SetReadDeadline(time.Time{})\n","	defer conn.SetWriteDeadline(time.Time{})\n")]),
 ("n1-deadline-late","N01",[(N,"	defer conn.SetReadDeadline(time.Time{})\n"+RD,RD)]),
 ("n1-clear-on-success","N01",[(N,"	defer conn.SetReadDeadline(time.Time{})\n"+RD,RD.replace("	return buff, nil","	_ = conn.SetReadDeadline(time.Time{})\n	return buff, nil"))]),
 ("n1-timeout-ms","N01",[(N,"time.Now().Add(timeout)","time.Now().Add(timeout * time.Millisecond)")]),
 ("n1-arm-ignored","N01",[(N,'''	err := conn.SetReadDeadline(time.Now().Add(timeout))
	if err != nil {
		return nil, err
	}
''','''	_ = conn.SetReadDeadline(time.Now().Add(timeout))
''')]),
 ("n1-grow","N01",[(N,"	return buff, nil\n","	return buff[:n:n], nil\n"),(N,"	buff := make([]byte, n)\n","	buff := make([]byte, n+1)\n")]),
 ("same-n1-share","",[(N,"	defer conn.SetReadDeadline(time.Time{})\n"+RD,"	defer conn.SetReadDeadline(time.Time{})\n	return ReadNBytes(conn, n)\n")]),
 ("same-n1-plain","",[(N,'''	nRead, err := io.ReadFull(conn, buff)
	if err != nil {
		return nil, err
	}
	if nRead != n {
		return buff, fmt.Errorf("failed to read packet in full")
	}
''','''	if _, err := io.ReadFull(conn, buff); err != nil {
		return nil, err
	}
'''),(N,'	"fmt"\n',"")]),
 ("same-n1-deferfunc","",[(N,"	defer conn.SetReadDeadline(time.Time{})\n","	defer func() {\n		_ = conn.SetReadDeadline(time.Time{})\n	}()\n")]),
 ("same-n1-explicit","",[(N,"	defer conn.SetReadDeadline(time.Time{})\n"+RD,'''	buff := make([]byte, n)
	_, err = io.ReadFull(conn, buff)
	_ = conn.SetReadDeadline(time.Time{})
	if err != nil {
		return nil, err
	}
	return buff, nil
''')]),
 ("same-n1-atleast-n","",[(N,"io.ReadFull(conn, buff)","io.ReadAtLeast(conn, buff, n)")]),
 ("same-n1-deadline-var","",[(N,"	err := conn.SetReadDeadline(time.Now().Add(timeout))\n	if err != nil {","	deadline := time.Now().Add(timeout)\n	var err error\n	if err = conn.SetReadDeadline(deadline); err != nil {")]),
 ("same-n1-loop","",[(N,'''	buff := make([]byte, n)
	nRead, err := io.ReadFull(conn, buff)
	if err != nil {
		return nil, err
	}
	if nRead != n {
		return buff, fmt.Errorf("failed to read packet in full")
	}

	return buff, nil
''','''	buff := make([]byte, n)
	got := 0
	for got < n {
		k, err := conn.Read(buff[got:])
		got += k
		if err != nil && got < n {
			return nil, err
		}
	}
	return buff, nil
''')]),
]

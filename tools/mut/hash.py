import sys; sys.path.insert(0,'/verif/tools/mut')
from round2 import F
SU="collections/struct_uniq_set.go"
G="func getHashCode("
M=[
("dh-bufptr","",[F(SU,G,'''
func getHashCode(v any) (hash [16]byte, err error) {
	buffer := new(bytes.Buffer)
	if err = gob.NewEncoder(buffer).Encode(v); err == nil {
		hash = md5.Sum(buffer.Bytes())
	}
	return hash, err
}
''')]),
("dh-stream","",[(SU,'	"encoding/gob"\n','	"encoding/gob"\n	"fmt"\n'),F(SU,G,'''
func getHashCode(v any) (hash [16]byte, err error) {
	h := md5.New()
	if err := gob.NewEncoder(h).Encode(v); err != nil {
		return hash, fmt.Errorf("hash: %w", err)
	}
	copy(hash[:], h.Sum(nil))
	_ = bytes.MinRead
	return hash, nil
}
''')]),
("dh-pool","",[F(SU,G,'''
var hashBuffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}

func getHashCode(v any) ([16]byte, error) {
	buffer := hashBuffers.Get().(*bytes.Buffer)
	defer hashBuffers.Put(buffer)
	buffer.Reset()
	if err := gob.NewEncoder(buffer).Encode(v); err != nil {
		return [16]byte{}, err
	}
	return md5.Sum(buffer.Bytes()), nil
}
''')]),
("dh-pool-mut","U01",[F(SU,G,'''
var hashBuffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}

func getHashCode(v any) ([16]byte, error) {
	buffer := hashBuffers.Get().(*bytes.Buffer)
	if err := gob.NewEncoder(buffer).Encode(v); err != nil {
		return [16]byte{}, err
	}
	h := md5.Sum(buffer.Bytes())
	buffer.Reset()
	hashBuffers.Put(buffer)
	return h, nil
}
''')]),
("dh-pool2-mut","U01",[F(SU,G,'''
var hashBuffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}

func getHashCode(v any) ([16]byte, error) {
	buffer := hashBuffers.Get().(*bytes.Buffer)
	defer hashBuffers.Put(buffer)
	if err := gob.NewEncoder(buffer).Encode(v); err != nil {
		return [16]byte{}, err
	}
	return md5.Sum(buffer.Bytes()), nil
}
''')]),
("dh-mustlen-mut","U01",[(SU,"	return md5.Sum(buffer.Bytes()), nil","	data := buffer.Bytes()\n	if len(data) > 4096 {\n		data = data[:4096]\n	}\n	return md5.Sum(data), nil")]),
("dh-err-mut","U01",[(SU,"		return [16]byte{}, err\n	}\n	md5","		return md5.Sum(nil), nil\n	}\n	md5")]),
("dh-pointer-mut","U01",[(SU,"err := enc.Encode(v)","err := enc.Encode(&v)")]),
]

import re
D="math/decimal_int.go"; MM="math/minmax.go"; K="comparer/comparer.go"; T="net/to_bytes.go"
def fn(src, name):
    s=open("/repo/"+src).read()
    i=s.index("func "+name)
    j=s.index("\n}\n",i)+3
    return s[i:j]
MIN="func Min(a, b int) int {\n	if a < b {\n		return a\n	}\n	return b\n}\n"
def mm(name, typ, body): return fn(MM,name+"("), "func %s(a, b %s) %s {\n%s}\n"%(name,typ,typ,body)
def rep(src,name,new): return (src, fn(src,name), new)
IPM=fn(D,"IntPointMove")
CS=fn(K,"CompareSlice")
M=[]
def m(name, ids, *ed): M.append((name, ids, list(ed)))
def x(name, ids, f, typ, body):
    o,n=mm(f,typ,body); m(name, ids, (MM,o,n))
x("x1-swapped","X01","Max16","int16","	if a > b {\n		return b\n	}\n	return a\n")
x("x1-sub","X01","Min64","int64","	if a-b < 0 {\n		return a\n	}\n	return b\n")
x("x1-unsigned-sub","X01","MaxUInt32","uint32","	if a-b > 0 {\n		return a\n	}\n	return b\n")
x("x1-conv","X01","MinUInt64","uint64","	if int64(a) < int64(b) {\n		return a\n	}\n	return b\n")
x("x1-conv8","X01","Max32","int32","	if int16(a) > int16(b) {\n		return a\n	}\n	return b\n")
x("x1-zero","X01","MinUInt8","uint8","	if a == 0 || b < a {\n		return b\n	}\n	return a\n")
x("x1-via32","X01","MaxUInt64","uint64","	return uint64(MaxUInt32(uint32(a), uint32(b)))\n")
x("x1-viafloat","X01","Max64","int64","	return int64(MaxFloat64(float64(a), float64(b)))\n")
x("same-x1-le","","Min8","int8","	if a <= b {\n		return a\n	}\n	return b\n")
x("same-x1-rev","","Max8","int8","	if b > a {\n		return b\n	}\n	return a\n")
x("same-x1-not","","MaxFloat32","float32","	if a < b {\n		return b\n	}\n	return a\n")
x("same-x1-fle","","MinFloat64","float64","	if a <= b {\n		return a\n	}\n	return b\n")
x("same-x1-builtin","","MinUInt","uint","	return min(a, b)\n")
x("same-x1-builtinmax","","MaxUInt16","uint16","	return max(a, b)\n")
x("same-x1-viamin","","Max","int","	if Min(a, b) == a {\n		return b\n	}\n	return a\n")
x("same-x1-wide","","Max16","int16","	return int16(Max(int(a), int(b)))\n")
x("same-x1-wide2","","Min8","int8","	if int(a)-int(b) < 0 {\n		return a\n	}\n	return b\n")
x("same-x1-assign","","MinUInt32","uint32","	m := a\n	if b < m {\n		m = b\n	}\n	return m\n")
x("same-x1-switch","","MaxUInt8","uint8","	switch {\n	case a > b:\n		return a\n	default:\n		return b\n	}\n")
m("same-x1-generic","",(MM,MIN,'''type ordered interface {
	~int | ~int64 | ~float64 | ~uint8
}

func smaller[T ordered](a, b T) T {
	if a < b {
		return a
	}
	return b
}

func Min(a, b int) int {
	return smaller(a, b)
}
'''),(MM,fn(MM,"MinFloat64("),"func MinFloat64(a, b float64) float64 {\n	return smaller(a, b)\n}\n"))
def d(name, ids, body): m(name, ids, (D, IPM, "func IntPointMove(value int, shift int) int {\n"+body+"}\n"))
d("x2-le","X02","	for i := 0; i <= shift; i++ {\n		value *= 10\n	}\n	for i := 0; i < -shift; i++ {\n		value /= 10\n	}\n	return value\n")
d("x2-neg-le","X02","	for i := 0; i < shift; i++ {\n		value *= 10\n	}\n	for i := 1; i < -shift; i++ {\n		value /= 10\n	}\n	return value\n")
d("x2-both","X02","	for i := 0; i < shift; i++ {\n		value *= 10\n	}\n	for i := 0; i < shift-1; i++ {\n		value /= 10\n	}\n	for i := 0; i < -shift; i++ {\n		value /= 10\n	}\n	return value\n")
d("x2-100","X02","	for ; shift > 1; shift -= 2 {\n		value *= 100\n	}\n	for ; shift < 0; shift++ {\n		value /= 10\n	}\n	return value\n")
d("x2-pow","X02","	p := 1\n	for i := 0; i < shift; i++ {\n		p *= 10\n	}\n	value *= p\n	q := 1\n	for i := 0; i < -shift; i++ {\n		q *= 10\n	}\n	return value / q\n")
d("x2-mod","X02","	for ; shift < 0; shift++ {\n		value = (value + 5) / 10\n	}\n	for ; shift > 0; shift-- {\n		value *= 10\n	}\n	return value\n")
d("x2-zero","X02","	if shift == 0 {\n		return 0\n	}\n	for ; shift < 0; shift++ {\n		value = value / 10\n	}\n	for ; shift > 0; shift-- {\n		value *= 10\n	}\n	return value\n")
d("x2-guard","X02","	if shift > 18 || shift < -18 {\n		return value\n	}\n	for ; shift < 0; shift++ {\n		value = value / 10\n	}\n	for ; shift > 0; shift-- {\n		value *= 10\n	}\n	return value\n")
d("same-x2-shift","","	for ; shift > 0; shift-- {\n		value *= 10\n	}\n	for ; shift < 0; shift++ {\n		value /= 10\n	}\n	return value\n")
d("same-x2-noguard","","	if shift > 0 {\n		for i := 0; i < shift; i++ {\n			value = 10 * value\n		}\n		return value\n	}\n	for i := shift; i < 0; i++ {\n		value = value / 10\n	}\n	return value\n")
d("same-x2-ne","","	for shift > 0 {\n		value *= 10\n		shift--\n	}\n	for shift < 0 {\n		value /= 10\n		shift++\n	}\n	return value\n")
d("same-x2-single","","	n := shift\n	if n < 0 {\n		n = -n\n	}\n	for i := 0; i < n; i++ {\n		if shift > 0 {\n			value *= 10\n		} else {\n			value /= 10\n		}\n	}\n	return value\n")
d("same-x2-res","","	res := value\n	for i := shift; i > 0; i-- {\n		res *= 10\n	}\n	for i := -shift; i > 0; i-- {\n		res /= 10\n	}\n	return res\n")
d("same-x2-pow","","	p := 1\n	for i := 0; i < shift; i++ {\n		p *= 10\n	}\n	value *= p\n	for i := 0; i < -shift; i++ {\n		value /= 10\n	}\n	return value\n")
m("same-x2-helpers","",(D,IPM,'''func times10(value, n int) int {
	for i := 1; i <= n; i++ {
		value *= 10
	}
	return value
}

func by10(value, n int) int {
	for n > 0 {
		value /= 10
		n--
	}
	return value
}

func IntPointMove(value int, shift int) int {
	switch {
	case shift > 0:
		return times10(value, shift)
	case shift < 0:
		return by10(value, -shift)
	}
	return value
}
'''))
d("same-x2-neq","","	if shift >= 0 {\n		for i := 0; i != shift; i++ {\n			value *= 10\n		}\n	} else {\n		for i := 0; i != shift; i-- {\n			value /= 10\n		}\n	}\n	return value\n")
# ---- K01
FILL='''	for _, elem := range mod {
		modMap[elem.GetId()] = struct{}{}
	}
'''
DEL='''	var del []T1
	for _, elem := range current {
		if _, ok := modMap[elem.GetId()]; !ok {
			del = append(del, elem)
		}
	}
'''
MOD='''	var modify []T1
	for _, elem := range current {
		if _, ok := modMap[elem.GetId()]; ok {
			modify = append(modify, elem)
		}
	}
'''
CRE='''	var create []T2
	for _, elem := range mod {
		if _, ok := currentMap[elem.GetId()]; !ok {
			create = append(create, elem)
		}
	}
'''
def k(name, ids, *ed): m(name, ids, *[(K,o,n) for o,n in ed])
k("k1-dedup","K01",(DEL,DEL.replace("del = append(del, elem)\n","del = append(del, elem)\n			modMap[elem.GetId()] = struct{}{}\n")))
k("k1-consume","K01",(MOD,MOD.replace("modify = append(modify, elem)\n","modify = append(modify, elem)\n			delete(modMap, elem.GetId())\n")))
k("k1-fill-skip","K01",(FILL,FILL.replace("modMap[elem.GetId()] = struct{}{}","if elem.GetId() != 0 {\n			modMap[elem.GetId()] = struct{}{}\n		}")))
k("k1-inplace","K01",(DEL,DEL.replace("var del []T1","del := current[:0]")))
k("k1-early","K01",("	// DELETE","	if len(mod) == 0 {\n		return nil, nil, nil\n	}\n	// DELETE"))
k("k1-early2","K01",("	// DELETE","	if len(current) == len(mod) {\n		return nil, nil, current\n	}\n	// DELETE"))
k("k1-break","K01",(CRE,CRE.replace("			create = append(create, elem)\n","			create = append(create, elem)\n			if len(create) == len(current) {\n				break\n			}\n")))
k("k1-order","K01",(DEL,DEL.replace("append(del, elem)","append([]T1{elem}, del...)")))
k("k1-from1","K01",(MOD,MOD.replace("range current","range current[1:]")))
k("k1-newmap","K01",(CRE,CRE.replace("currentMap[elem","modMap[elem")))
k("k1-modelem","K01",(CRE,"	var create []T2\n	for i, elem := range mod {\n		if _, ok := currentMap[elem.GetId()]; !ok {\n			create = append(create, mod[len(mod)-1-i])\n		}\n	}\n"))
k("k1-int32","K01",(CS,CS.replace("make(map[uint64]struct{})","make(map[uint32]struct{})").replace("elem.GetId()","uint32(elem.GetId())")))
k("same-k1-onepass","",(MOD,""),(DEL,'''	var del, modify []T1
	for _, elem := range current {
		if _, ok := modMap[elem.GetId()]; ok {
			modify = append(modify, elem)
		} else {
			del = append(del, elem)
		}
	}
'''))
k("same-k1-bool","",(CS,CS.replace("map[uint64]struct{}","map[uint64]bool").replace("= struct{}{}","= true").replace("if _, ok := modMap[elem.GetId()]; !ok","if !modMap[elem.GetId()]").replace("if _, ok := modMap[elem.GetId()]; ok","if modMap[elem.GetId()]").replace("if _, ok := currentMap[elem.GetId()]; !ok","if !currentMap[elem.GetId()]")))
k("same-k1-helper","",(CS,'''func idSet[T Ider](list []T) map[uint64]struct{} {
	res := make(map[uint64]struct{}, len(list))
	for _, e := range list {
		res[e.GetId()] = struct{}{}
	}
	return res
}

'''+CS.replace("	currentMap := make(map[uint64]struct{})\n	modMap := make(map[uint64]struct{})\n","	currentMap, modMap := idSet(current), idSet(mod)\n").replace("	for _, elem := range current {\n		currentMap[elem.GetId()] = struct{}{}\n	}\n","").replace(FILL,"")))
k("same-k1-filter","",(CS,'''func filter[T Ider](list []T, ids map[uint64]struct{}, present bool) []T {
	var res []T
	for _, e := range list {
		if _, ok := ids[e.GetId()]; ok == present {
			res = append(res, e)
		}
	}
	return res
}

'''+CS.replace(DEL,"	del := filter(current, modMap, false)\n").replace(CRE,"	create := filter(mod, currentMap, false)\n").replace(MOD,"	modify := filter(current, modMap, true)\n")))
k("same-k1-index","",(DEL,DEL.replace("for _, elem := range current {","for i := 0; i < len(current); i++ {\n		elem := current[i]")))
k("same-k1-id","",(DEL,DEL.replace("if _, ok := modMap[elem.GetId()]; !ok {","id := elem.GetId()\n		_, ok := modMap[id]\n		if ok {\n			continue\n		}\n		{")))
k("same-k1-prealloc","",(DEL,DEL.replace("var del []T1","del := make([]T1, 0, len(current))")))
k("same-k1-order","",(MOD,""),("	// DELETE",MOD+"	// DELETE"))
k("same-k1-early","",("	// DELETE","	if len(current) == 0 {\n		return nil, mod, nil\n	}\n	// DELETE"))
k("same-k1-closure","",(CS,CS.replace("	// DELETE",'''	inMod := func(e Ider) bool {
		_, ok := modMap[e.GetId()]
		return ok
	}
	// DELETE''').replace("if _, ok := modMap[elem.GetId()]; !ok {","if !inMod(elem) {").replace("if _, ok := modMap[elem.GetId()]; ok {","if inMod(elem) {")))
# ---- N02
def t(name, ids, *ed): m(name, ids, *[(T,o,n) for o,n in ed])
PK=fn(T,"PackUint"); UP=fn(T,"UnpackUint")
t("n2-le-only","N02",(PK,PK.replace("order.PutUint32(data, val)","binary.LittleEndian.PutUint32(data, val)")))
t("n2-width","N02",(PK,PK.replace("data = make([]byte, 2)","data = make([]byte, 4)")))
t("n2-trunc","N02",(PK,PK.replace("		data = make([]byte, 8)\n		order.PutUint64(data, val)","		data = make([]byte, 8)\n		order.PutUint32(data, uint32(val))")))
t("n2-nil","N02",(PK,PK.replace('panic("unsupported type")','data = nil')))
t("n2-unp-err","N02",(UP,UP.replace("return ErrUnsupportedType","return nil")))
t("n2-unp-swap","N02",(UP,UP.replace("*val = order.Uint32(data)","*val = uint32(order.Uint16(data))")))
t("n2-unp-be","N02",(UP,UP.replace("*val = order.Uint16(data)","*val = binary.BigEndian.Uint16(data)")))
t("n2-unp-off","N02",(UP,UP.replace("*val = data[0]","*val = data[len(data)-1]")))
t("n2-fixed-be","N02",("binary.LittleEndian.PutUint16(bs, len)","binary.BigEndian.PutUint16(bs, len)"))
t("n2-get-be","N02",("return binary.LittleEndian.Uint32(lens)","return uint32(lens[3]) | uint32(lens[2])<<8 | uint32(lens[1])<<16 | uint32(lens[0])<<24"))
t("n2-prefix-self","N02",("	ld := uint16(len(data))\n","	ld := uint16(len(data) + 2)\n"))
t("n2-prefix-8","N02",("	ld := uint32(len(data))\n","	ld := uint32(uint16(len(data)))\n"))
t("n2-prefix-post","N02",("return append(GetBytesFromUInt16(ld), data...)","return append(data, GetBytesFromUInt16(ld)...)"))
t("n2-var-shift","N02",("data >> uint(i*8)","data >> uint(i*4)"))
t("n2-var-be","N02",("bs[i] = byte","bs[count-1-i] = byte"))
t("n2-var-narrow","N02",("bs[i] = byte(data >> uint(i*8))","bs[i] = byte(int32(data) >> uint(i*8))"))
t("n2-get-narrow","N02",("res |= int(b) << uint(i*8)","res |= int(uint32(b) << uint(i*8))"))
t("n2-get-skip","N02",("res |= int(b) << uint(i*8)","if i > 3 {\n			break\n		}\n		res |= int(b) << uint(i*8)"))
t("n2-get-byte","N02",("res |= int(b) << uint(i*8)","res |= int(b << uint(i*8))"))
t("same-n2-order","",(PK,'''func PackUint(order binary.ByteOrder, v interface{}) []byte {
	switch val := v.(type) {
	case uint8:
		return []byte{val}
	case uint16:
		b := make([]byte, 2)
		order.PutUint16(b, val)
		return b
	case uint32:
		b := make([]byte, 4)
		order.PutUint32(b, val)
		return b
	case uint64:
		var b [8]byte
		order.PutUint64(b[:], val)
		return b[:]
	}
	panic("unsupported type")
}
'''))
t("same-n2-ifs","",(UP,'''func UnpackUint(order binary.ByteOrder, data []byte, v interface{}) error {
	if p, ok := v.(*uint8); ok {
		*p = data[0]
		return nil
	}
	if p, ok := v.(*uint16); ok {
		*p = order.Uint16(data)
		return nil
	}
	if p, ok := v.(*uint32); ok {
		*p = order.Uint32(data)
		return nil
	}
	if p, ok := v.(*uint64); ok {
		*p = order.Uint64(data[:8])
		return nil
	}
	return ErrUnsupportedType
}
'''))
t("same-n2-shifts","",("	bs := make([]byte, 4)\n	binary.LittleEndian.PutUint32(bs, len)\n	return bs","	return []byte{byte(len), byte(len >> 8), byte(len >> 16), byte(len >> 24)}"))
t("same-n2-shifts2","",("	bs := make([]byte, 4)\n	binary.LittleEndian.PutUint32(bs, len)\n	return bs","	bs := make([]byte, 4)\n	bs[0] = byte(len)\n	bs[1] = byte(len >> 8)\n	bs[2] = byte(len >> 16)\n	bs[3] = byte(len >> 24)\n	return bs"))
t("same-n2-get-shifts","",("return binary.LittleEndian.Uint32(lens)","return uint32(lens[0]) | uint32(lens[1])<<8 | uint32(lens[2])<<16 | uint32(lens[3])<<24"))
t("same-n2-usepack","",("	bs := make([]byte, 4)\n	binary.LittleEndian.PutUint32(bs, len)\n	return bs","	return PackUint(binary.LittleEndian, len)"))
t("same-n2-useunpack","",("	return binary.LittleEndian.Uint16(lens)","	var v uint16\n	_ = UnpackUint(binary.LittleEndian, lens, &v)\n	return v"))
t("same-n2-append","",("	bs := make([]byte, 2)\n	binary.LittleEndian.PutUint16(bs, len)\n	return bs","	return binary.LittleEndian.AppendUint16(nil, len)"))
t("same-n2-prefix","",("	ld := uint32(len(data))\n	return append(GetBytesFromUInt32(ld), data...)","	out := make([]byte, 4+len(data))\n	binary.LittleEndian.PutUint32(out, uint32(len(data)))\n	copy(out[4:], data)\n	return out"))
t("same-n2-prefix2","",("	ld := uint32(len(data))\n	return append(GetBytesFromUInt32(ld), data...)","	out := make([]byte, 4, 4+len(data))\n	binary.LittleEndian.PutUint32(out, uint32(len(data)))\n	return append(out, data...)"))
t("same-n2-var","",("	for i := 0; i < count; i++ {\n		bs[i] = byte(data >> uint(i*8))\n	}","	for i := range bs {\n		bs[i] = byte(data)\n		data >>= 8\n	}"))
t("same-n2-var2","",("	bs := make([]byte, count)\n	for i := 0; i < count; i++ {\n		bs[i] = byte(data >> uint(i*8))\n	}","	var bs []byte\n	for i := 0; i < count; i++ {\n		bs = append(bs, byte(data>>(8*i)&0xff))\n	}"))
t("same-n2-var3","",("	for i := 0; i < count; i++ {\n		bs[i] = byte(data >> uint(i*8))\n	}","	for i := count - 1; i >= 0; i-- {\n		bs[i] = byte(data >> uint(i<<3))\n	}"))
t("same-n2-get","",("	for i, b := range data {\n		res |= int(b) << uint(i*8)\n	}","	for i := len(data) - 1; i >= 0; i-- {\n		res = res<<8 | int(data[i])\n	}"))
t("same-n2-get2","",("	for i, b := range data {\n		res |= int(b) << uint(i*8)\n	}","	for i := 0; i < len(data); i++ {\n		res += int(data[i]) << (8 * i)\n	}"))
t("same-n2-check","",(UP,UP.replace("	switch val := v.(type) {","	if len(data) == 0 {\n		return errors.New(\"no data\")\n	}\n	switch val := v.(type) {")))
# ---- N03
CH=fn(T,"Chunk"); BB=fn(T,"ByteToBoolArray"); AB=fn(T,"BoolArrayToByte"); CT=fn(T,"CreateAllTrueBoolArray"); CB=fn(T,"CopyBytes")
t("n3-chunk-lastdrop","N03",(CH,CH.replace("i < len(data)","i+size <= len(data)")))
t("n3-chunk-empty","N03",(CH,CH.replace("i < len(data)","i <= len(data)")))
t("n3-chunk-clamp","N03",(CH,CH.replace("end = len(data)","end = len(data) - 1")))
t("n3-chunk-step","N03",(CH,CH.replace("i += size","i += size + 1")))
t("n3-chunk-noclamp","N03",(CH,CH.replace("		if end > len(data) {\n			end = len(data)\n		}\n","		if end > cap(data) {\n			end = len(data)\n		}\n")))
t("n3-chunk-balanced","N03",(CH,CH.replace("	for i","	if len(data) <= 2*size {\n		return [][]byte{data[:len(data)/2], data[len(data)/2:]}\n	}\n	for i")))
t("n3-chunk-one","N03",(CH,CH.replace("	for i","	if len(data) <= size {\n		return [][]byte{data}\n	}\n	for i")))
t("n3-chunk-reslice","N03",(CH,'''func Chunk(data []byte, size int) [][]byte {
	var chunks [][]byte
	for len(data) >= size {
		chunks = append(chunks, data[:size])
		data = data[size:]
	}
	chunks = append(chunks, data)
	return chunks
}
'''))
t("same-n3-chunk-reslice","",(CH,'''func Chunk(data []byte, size int) [][]byte {
	var chunks [][]byte
	for len(data) > size {
		chunks = append(chunks, data[:size])
		data = data[size:]
	}
	if len(data) > 0 {
		chunks = append(chunks, data)
	}
	return chunks
}
'''))
t("same-n3-chunk-reslice2","",(CH,'''func Chunk(data []byte, size int) [][]byte {
	chunks := make([][]byte, 0, 8)
	for len(data) > 0 {
		n := size
		if len(data) < n {
			n = len(data)
		}
		chunks = append(chunks, data[:n:n])
		data = data[n:]
	}
	return chunks
}
'''))
t("same-n3-chunk-min","",(CH,'''func Chunk(data []byte, size int) [][]byte {
	var chunks [][]byte
	for i := 0; i < len(data); i += size {
		chunks = append(chunks, data[i:min(i+size, len(data))])
	}
	return chunks
}
'''))
t("same-n3-chunk-else","",(CH,'''func Chunk(data []byte, size int) [][]byte {
	var chunks [][]byte
	start := 0
	for start < len(data) {
		end := start + size
		if end < len(data) {
			chunks = append(chunks, data[start:end])
		} else {
			chunks = append(chunks, data[start:])
		}
		start = end
	}
	return chunks
}
'''))
t("same-n3-chunk-end","",(CH,'''func Chunk(data []byte, size int) [][]byte {
	var chunks [][]byte
	for i := 0; i < len(data); {
		end := i + size
		if end > len(data) {
			end = len(data)
		}
		chunks = append(chunks, data[i:end])
		i = end
	}
	return chunks
}
'''))
t("same-n3-chunk-guard","",(CH,CH.replace("	for i","	if size <= 0 {\n		return nil\n	}\n	for i")))
t("same-n3-chunk-full","",(CH,'''func Chunk(data []byte, size int) [][]byte {
	var chunks [][]byte
	i := 0
	for ; i+size <= len(data); i += size {
		chunks = append(chunks, data[i:i+size])
	}
	if i < len(data) {
		chunks = append(chunks, data[i:])
	}
	return chunks
}
'''))
t("n3-bits-msb","N03",(BB,BB.replace("b&(1<<uint(i)) != 0","b&(128>>uint(i)) != 0")))
t("n3-bits-7","N03",(BB,BB.replace("i < 8","i < 7")))
t("n3-bits-one","N03",(BB,BB.replace("b&(1<<uint(i)) != 0","b&(1<<uint(i)) == 1")))
t("n3-count-min","N03",(BB,BB.replace("	if len(count) > 0 {","	if len(count) > 1 {")))
t("n3-count-zero","N03",(BB,BB.replace("	if len(count) > 0 {","	if len(count) > 0 && count[0] > 0 {")))
t("same-n3-shift","",(BB,BB.replace("b&(1<<uint(i)) != 0","(b>>uint(i))&1 == 1")))
t("same-n3-mask","",(BB,BB.replace("		for i := 0; i < 8; i++ {\n			res = append(res, b&(1<<uint(i)) != 0)\n		}","		for mask := 0; mask < 8; mask++ {\n			res = append(res, b%2 == 1)\n			b >>= 1\n		}")))
t("same-n3-flatbits","",(BB,'''func ByteToBoolArray(data []byte, count ...int) []bool {
	res := make([]bool, len(data)*8)
	for i := range res {
		res[i] = data[i/8]&(1<<(uint(i)%8)) != 0
	}
	if len(count) > 0 {
		res = res[:count[0]]
	}
	return res
}
'''))
t("same-n3-indexbits","",(BB,'''func ByteToBoolArray(data []byte, count ...int) []bool {
	res := make([]bool, 8*len(data))
	for i, b := range data {
		for j := 0; j < 8; j++ {
			res[i*8+j] = b>>j&1 != 0
		}
	}
	if len(count) == 0 {
		return res
	}
	return res[:count[0]]
}
'''))
t("same-n3-ifbits","",(BB,BB.replace("res = append(res, b&(1<<uint(i)) != 0)","if b&(1<<uint(i)) != 0 {\n				res = append(res, true)\n			} else {\n				res = append(res, false)\n			}")))
t("n3-pack-drop","N03",(AB,AB.replace("i < len(data)","i+7 < len(data)")))
t("n3-pack-msb","N03",(AB,AB.replace("1 << uint(j)","0x80 >> uint(j)")))
t("n3-pack-7","N03",(AB,AB.replace("j < 8","j < 7")))
t("n3-pack-last","N03",(AB,AB.replace("i+j >= len(data)","i+j >= len(data)-1")))
t("n3-pack-add","N03",(AB,AB.replace("b |= 1 << uint(j)","b |= byte(j)")))
t("n3-pack-break","N03",(AB,AB.replace("if data[i+j] {\n				b |= 1 << uint(j)\n			}","if !data[i+j] {\n				break\n			}\n			b |= 1 << uint(j)")))
t("n3-pack-len","N03",(AB,'''func BoolArrayToByte(data []bool) []byte {
	res := make([]byte, len(data)/8+1)
	for i, v := range data {
		if v {
			res[i/8] |= 1 << (i % 8)
		}
	}
	return res
}
'''))
t("same-n3-pack-flat","",(AB,'''func BoolArrayToByte(data []bool) []byte {
	res := make([]byte, (len(data)+7)/8)
	for i, v := range data {
		if v {
			res[i/8] |= 1 << (i % 8)
		}
	}
	return res
}
'''))
t("same-n3-pack-flat2","",(AB,'''func BoolArrayToByte(data []bool) []byte {
	res := make([]byte, (len(data)+7)>>3)
	for i := 0; i < len(data); i++ {
		if data[i] {
			res[i>>3] = res[i>>3] | 1<<uint(i&7)
		}
	}
	return res
}
'''))
t("same-n3-pack-cond","",(AB,AB.replace("j := 0; j < 8; j++","j := 0; j < 8 && i+j < len(data); j++").replace("			if i+j >= len(data) {\n				break\n			}\n","")))
t("same-n3-pack-add","",(AB,AB.replace("b |= 1 << uint(j)","b += byte(1) << j")))
t("same-n3-pack-end","",(AB,'''func BoolArrayToByte(data []bool) []byte {
	var res []byte
	for i := 0; i < len(data); i += 8 {
		end := i + 8
		if end > len(data) {
			end = len(data)
		}
		var b byte
		for j := i; j < end; j++ {
			if data[j] {
				b |= 1 << uint(j-i)
			}
		}
		res = append(res, b)
	}
	return res
}
'''))
t("same-n3-pack-continue","",(AB,AB.replace("if data[i+j] {\n				b |= 1 << uint(j)\n			}","if !data[i+j] {\n				continue\n			}\n			b |= 1 << uint(j)")))
t("same-n3-pack-helper","",(AB,'''func packByte(data []bool, from int) (b byte) {
	for j := 0; j < 8; j++ {
		if from+j >= len(data) {
			return b
		}
		if data[from+j] {
			b |= 1 << uint(j)
		}
	}
	return b
}

func BoolArrayToByte(data []bool) []byte {
	var res []byte
	for i := 0; i < len(data); i += 8 {
		res = append(res, packByte(data, i))
	}
	return res
}
'''))
t("n3-copy-alias","N03",(CB,"func CopyBytes(data []byte, l int) []byte {\n	return data[:l]\n}\n"))
t("n3-copy-cap","N03",(CB,"func CopyBytes(data []byte, l int) []byte {\n	return data[:l:l]\n}\n"))
t("n3-copy-short","N03",(CB,CB.replace("copy(res, data[:l])","copy(res[1:], data[:l])")))
t("n3-true-last","N03",(CT,CT.replace("i < size","i < size-1")))
t("n3-true-two","N03",(CT,CT.replace("i++","i += 2")))
t("same-n3-copy-append","",(CB,"func CopyBytes(data []byte, l int) []byte {\n	return append(make([]byte, 0, l), data[:l]...)\n}\n"))
t("same-n3-copy-clone","",(CB,"func CopyBytes(data []byte, l int) []byte {\n	return append([]byte{}, data[:l]...)\n}\n"))
t("same-n3-true-range","",(CT,CT.replace("for i := 0; i < size; i++ {","for i := range arr {")))
t("same-n3-true-append","",(CT,"func CreateAllTrueBoolArray(size int) []bool {\n	arr := make([]bool, 0, size)\n	for len(arr) < size {\n		arr = append(arr, true)\n	}\n	return arr\n}\n"))
t("same-n3-true-append2","",(CT,"func CreateAllTrueBoolArray(size int) []bool {\n	arr := make([]bool, 0, size)\n	for i := 0; i < size; i++ {\n		arr = append(arr, true)\n	}\n	return arr\n}\n"))
t("same-n3-true-down","",(CT,CT.replace("i := 0; i < size; i++","i := size - 1; i >= 0; i--")))

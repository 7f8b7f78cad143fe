package main

import (
	"go/types"
	"strings"
)

// Rules for the encryption, hashing, compression and network helpers.

// errTerm: the error a call reported, if it can fail.
func errTerm(e *Event) *Term {
	r := e.Res
	if r == nil {
		return nil
	}
	if r.Op == "tuple" {
		if len(r.Args) == 0 {
			return nil
		}
		r = r.Args[len(r.Args)-1]
	}
	if isErrType(r.T) {
		return r
	}
	return nil
}

// res: the i-th result of a call.
func res(e *Event, i int) *Term {
	if e == nil || e.Res == nil {
		return nil
	}
	if e.Res.Op == "tuple" {
		if i < len(e.Res.Args) {
			return e.Res.Args[i]
		}
		return nil
	}
	if i == 0 {
		return e.Res
	}
	return nil
}

// okCall: the path knows that the call succeeded.
func (t *Trace) okCall(e *Event) bool {
	x := errTerm(e)
	return x == nil || t.Facts.Eval(tEq(x, tNil)) == 1
}

// calls: the calls of the named functions on a path.
func (t *Trace) calls(names ...string) []*Event {
	var out []*Event
	for _, e := range t.of("call") {
		for _, n := range names {
			if e.Name == n {
				out = append(out, e)
			}
		}
	}
	return out
}

// produced: the call whose result (or i-th result) the term is.
func (t *Trace) produced(v *Term, i int, names ...string) *Event {
	for _, e := range t.calls(names...) {
		if res(e, i) == v {
			return e
		}
	}
	return nil
}

// fails: the path returns an error that is known to be one.
func (t *Trace) fails() bool {
	return t.End == "return" && len(t.Ret) > 0 && t.nonNilErr(t.Ret[len(t.Ret)-1])
}

// ownErr: the error returned is the one the call reported, whichever it was.
func (t *Trace) ownErr(e *Event) bool {
	x := errTerm(e)
	return x != nil && len(t.Ret) > 0 && t.Ret[len(t.Ret)-1] == x
}

// handled: on a path that may report success the call did succeed.
func (t *Trace) handled(e *Event) bool { return t.fails() || t.okCall(e) || t.ownErr(e) }

// fieldIs: the value is the receiver's field that the constructor fills with
// (a copy of) its i-th parameter.
func (c *Chk) fieldIs(v *Term, ctor string, i int) bool {
	f := place(v)
	if f == "" || v.Op != "load" && v.Op != "fld" {
		return false
	}
	p := c.P(ctor)
	ts := returns(p)
	for _, t := range ts {
		if len(t.Ret) == 0 {
			return false
		}
		fv := t.finalField(t.Ret[0], f)
		if fv == nil || sameBytes(fv) != param(p, i) {
			return false
		}
	}
	return len(ts) > 0
}

// sameBytes strips what only copies a byte slice.
func sameBytes(v *Term) *Term {
	for v != nil {
		switch {
		case v.IsCall("bytes.Clone", "slices.Clone") && len(v.Args) == 1:
			v = v.Args[0]
		case v.Op == "slice" && v.Args[1].Op == "none" && v.Args[2].Op == "none":
			v = v.Args[0]
		case v.Op == "appends" && emptyList(v.Args[0]):
			v = v.Args[1]
		case v.Op == "arrcopy" && v.T != nil && v.T.Underlying().(*types.Array).Len() == 16 && v.Args[0].IsCall("(hash.Hash).Sum"):
			v = v.Args[0]
		default:
			return v
		}
	}
	return v
}

func emptyList(v *Term) bool {
	if v == nil {
		return false
	}
	if v.IsNil() || v.Op == "arr" && len(v.Args) == 0 {
		return true
	}
	if v.Op == "zero" {
		return true
	}
	if l := bufLen(v); l != nil {
		z, ok := l.Int()
		return ok && z == 0
	}
	return false
}

// bufLen: the length of a buffer made on the path, nil if it was not made here.
func bufLen(v *Term) *Term {
	if v == nil {
		return nil
	}
	switch v.Op {
	case "mkslice":
		return v.Args[0]
	case "arr":
		return tInt(int64(len(v.Args)))
	case "slice":
		if v.Args[1].Op != "none" {
			return nil
		}
		if v.Args[2].Op != "none" {
			return v.Args[2]
		}
		b := v.Args[0]
		if b.Op == "new" {
			if at, ok := b.T.Underlying().(*types.Array); ok {
				return tInt(at.Len())
			}
		}
		return bufLen(b)
	}
	return nil
}

// bufRoot: the allocation a buffer belongs to.
func bufRoot(v *Term) *Term {
	for v != nil {
		switch v.Op {
		case "slice", "faddr", "iaddr", "removeat":
			v = v.Args[0]
		case "arr":
			if o, ok := v.Obj.(*Term); ok {
				return o
			}
			return v
		case "append", "appends":
			v = v.Args[0]
		default:
			return v
		}
	}
	return nil
}

// touches: the event may write into (or hand out) the buffer.
func touches(e *Event, root *Term) bool {
	switch e.Kind {
	case "store":
		return bufRoot(e.Loc) == root && e.Loc != root
	case "copy":
		return bufRoot(e.Loc) == root
	case "append":
		return bufRoot(e.Val) == root
	case "call", "callback", "go", "send":
		for _, a := range e.Args {
			if a.Any(func(x *Term) bool { return x == root || x.Op == "arr" && x.Obj == any(root) }) {
				return true
			}
		}
	}
	return false
}

// ---- AES ----

// gcm: the term is a standard AES-GCM instance under the object's key, both
// of whose constructions succeeded.
func (c *Chk) gcm(t *Trace, g *Term) bool {
	n := t.produced(g, 0, "crypto/cipher.NewGCM")
	if n == nil || !t.okCall(n) || len(n.Args) != 1 {
		return false
	}
	b := t.produced(n.Args[0], 0, "crypto/aes.NewCipher")
	return b != nil && t.okCall(b) && len(b.Args) == 1 && c.fieldIs(b.Args[0], "crypto.NewAES", 0)
}

func (c *Chk) nonceLen(t *Trace, n *Term) bool {
	if n == nil {
		return false
	}
	if v, ok := n.Int(); ok {
		return v == 12
	}
	if n.IsCall("(crypto/cipher.AEAD).NonceSize") {
		return c.gcm(t, n.Args[0])
	}
	return false
}

// pieces: what a byte slice is put together from.
func pieces(v *Term) []*Term {
	switch {
	case emptyList(v):
		return nil
	case v.Op == "appends":
		return append(pieces(v.Args[0]), pieces(v.Args[1])...)
	case v.Op == "slice" && v.Args[1].Op == "none" && v.Args[2].Op == "none" && v.Args[0].Op != "new":
		return pieces(v.Args[0])
	case v.Op == "slice" && v.Args[1].Op == "none":
		if z, ok := v.Args[2].Int(); ok && z == 0 {
			return nil
		}
	case v.IsCall("(crypto/cipher.AEAD).Seal") && len(v.Args) == 5:
		return append(pieces(v.Args[1]), v)
	}
	return []*Term{v}
}

// laidOut is pieces, for buffers filled by copying as well.
func (t *Trace) laidOut(v *Term, seq int) []*Term {
	l := bufLen(v)
	root := bufRoot(v)
	if l == nil || root == nil || v.IsCall() {
		return pieces(v)
	}
	var copies []*Event
	for _, e := range t.of("copy") {
		if bufRoot(e.Loc) == root && e.Seq < seq {
			copies = append(copies, e)
		}
	}
	if len(copies) == 0 {
		return pieces(v)
	}
	at := newLin()
	var out []*Term
	for _, e := range copies {
		lo := tInt(0)
		d := e.Loc
		if d.Op == "slice" && d.Args[0] == v {
			if d.Args[1].Op != "none" {
				lo = d.Args[1]
			}
		} else if d != v {
			return pieces(v)
		}
		diff := lin(lo)
		m := newLin()
		m.add(diff, 1)
		m.add(at, -1)
		if !m.isZero() {
			return pieces(v)
		}
		out = append(out, e.Val)
		at.add(lin(tLen(e.Val)), 1)
	}
	m := newLin()
	m.add(lin(l), 1)
	m.add(at, -1)
	if !m.isZero() {
		return pieces(v)
	}
	return out
}

func ruleA01(c *Chk) {
	p := c.P("crypto.AES.Encrypt")
	for _, t := range ends(p, "panic", "return", "back") {
		if t.End != "return" {
			c.check("total", t.End == "back", t, nil, "Encrypt panics")
			continue
		}
		if t.fails() {
			c.check("error", isNilVal(t.Ret[0]), t, nil, "Encrypt returns data together with an error")
			continue
		}
		ps := t.laidOut(t.Ret[0], 1<<30)
		var seal *Event
		if len(ps) == 2 {
			seal = t.produced(ps[1], 0, "(crypto/cipher.AEAD).Seal")
		}
		if !c.check("sealed", seal != nil, t, nil, "Encrypt succeeds with something else than the nonce and the sealed data") {
			continue
		}
		a := seal.Args
		nonce := a[2]
		c.check("sealed", c.gcm(t, a[0]), t, seal, "the data is not sealed by AES-GCM under the instance's key, or sealing goes on after a construction failed")
		c.check("whole", sameBytes(a[3]) == param(p, 1) && isNilVal(a[4]), t, seal, "something else than exactly the input is sealed")
		c.check("prefix", ps[0] == nonce || sameBytes(ps[0]) == nonce || ps[0] == sameBytes(nonce) || sameBytes(ps[0]) == sameBytes(nonce), t, seal, "the output does not start with the nonce it was sealed with")
		root := bufRoot(nonce)
		c.check("nonce", root != nil && (root.Op == "mkslice" || root.Op == "new") && c.nonceLen(t, bufLen(nonce)), t, seal, "the nonce is not a full-length buffer made for this call")
		// drawn from the operating system, successfully, and not changed since
		var drawn *Event
		for _, e := range t.Events {
			if e.Seq >= seal.Seq {
				break
			}
			switch {
			case e.Kind == "call" && (e.Name == "crypto/rand.Read" && len(e.Args) == 1 && e.Args[0] == nonce ||
				e.Name == "io.ReadFull" && len(e.Args) == 2 && isRandReader(e.Args[0]) && e.Args[1] == nonce):
				drawn = e
			case touches(e, root):
				drawn = nil
			}
		}
		c.check("random", drawn != nil && t.okCall(drawn), t, seal, "the nonce is not (only) what the system's random source delivered for this call")
		for _, e := range t.Events {
			if e.Seq > seal.Seq && e.Kind != "return" {
				c.check("sealed", !touches(e, root) || e.Kind == "append" || e.Kind == "copy" && e.Loc != ps[1], t, e, "the result is changed after sealing")
			}
		}
		for _, e := range t.of("call") {
			c.check("error", t.handled(e), t, e, "Encrypt may succeed although %s failed", lastSeg(e.Name))
		}
	}
	c.atLeast("sealed", 2)
	c.atLeast("random", 1)
	c.atLeast("error", 2)
}

func isRandReader(v *Term) bool {
	return v != nil && v.Any(func(x *Term) bool { return x.Op == "global" && x.S == "crypto/rand.Reader" })
}

func ruleA02(c *Chk) {
	p := c.P("crypto.AES.Decrypt")
	data := param(p, 1)
	for _, t := range ends(p, "panic", "return", "back") {
		c.check("total", t.End != "panic", t, nil, "Decrypt panics")
		for _, e := range t.of("reslice") {
			f := t.at(e)
			lo, hi := e.Args[0], e.Args[1]
			if lo.Op == "none" {
				lo = tInt(0)
			}
			top := tLen(e.Val)
			if hi.Op == "none" {
				hi = top
			}
			f = c.sizes(f, t)
			c.check("bounds", f.ProveLE(tInt(0), lo, 0) && f.ProveLE(lo, hi, 0) && f.ProveLE(hi, top, 0), t, e, "slicing the input may panic for some inputs")
		}
		for _, e := range t.of("load") {
			if e.Loc.Op == "iaddr" && bufRoot(e.Loc) == data {
				i := e.Loc.Args[1]
				f := c.sizes(t.at(e), t)
				c.check("bounds", f.ProveLE(tInt(0), i, 0) && f.ProveLT(i, tLen(e.Loc.Args[0])), t, e, "indexing the input may panic for some inputs")
			}
		}
		if t.End != "return" {
			continue
		}
		for _, e := range t.calls("(crypto/cipher.AEAD).Open") {
			a := e.Args
			if !c.check("open", len(a) == 5 && c.gcm(t, a[0]), t, e, "the data is not opened by AES-GCM under the instance's key, or opening goes on after a construction failed") {
				continue
			}
			n, ct := a[2], a[3]
			split := n.Op == "slice" && n.Args[0] == data && n.Args[1].Op == "none" && c.nonceLen(t, n.Args[2]) &&
				ct.Op == "slice" && ct.Args[0] == data && ct.Args[2].Op == "none" && ct.Args[1] == n.Args[2]
			c.check("split", split && isNilVal(a[4]), t, e, "nonce and sealed data are not taken from the input as Encrypt lays them out")
			c.check("dst", pieces(a[1]) == nil, t, e, "the plaintext is appended to other data")
		}
		if t.fails() {
			ok := isNilVal(t.Ret[0]) || t.produced(t.Ret[0], 0, "(crypto/cipher.AEAD).Open") != nil && t.Ret[1] == errTerm(t.produced(t.Ret[0], 0, "(crypto/cipher.AEAD).Open"))
			c.check("error", ok, t, nil, "Decrypt returns data together with an error")
			continue
		}
		o := t.produced(t.Ret[0], 0, "(crypto/cipher.AEAD).Open")
		c.check("authentic", o != nil && (t.okCall(o) || t.ownErr(o)), t, nil, "Decrypt may succeed with data whose authentication did not succeed")
		for _, e := range t.of("call") {
			c.check("error", t.handled(e), t, e, "Decrypt may succeed although %s failed", lastSeg(e.Name))
		}
		if o != nil {
			for _, e := range t.Events {
				if e.Seq > o.Seq && e.Kind == "store" {
					c.check("authentic", bufRoot(e.Loc) != t.Ret[0], t, e, "the plaintext is changed after it was authenticated")
				}
			}
		}
	}
	c.atLeast("open", 1)
	c.atLeast("split", 1)
	c.atLeast("authentic", 1)
	c.atLeast("bounds", 2)
}

// sizes adds that nonce and overhead sizes are not negative.
func (c *Chk) sizes(f Facts, t *Trace) Facts {
	for _, e := range t.calls("(crypto/cipher.AEAD).NonceSize", "(crypto/cipher.AEAD).Overhead") {
		f = f.Add(tLt(e.Res, tInt(0)), false)
	}
	return f
}

// ---- hashes ----

// bytesOf: the term holds the bytes of this string.
func bytesOf(v *Term) *Term {
	v = sameBytes(v)
	for v != nil && (v.Op == "conv" || v.Op == "iface") {
		v = v.Args[0]
	}
	if v != nil && v.Op == "appends" && emptyList(v.Args[0]) {
		v = v.Args[1]
	}
	return v
}

// digestOf: what the term is the MD5 digest of.
func (t *Trace) digestOf(v *Term) *Term {
	for v != nil && (v.Op == "iface" || v.Op == "conv") {
		v = v.Args[0]
	}
	v = sameBytes(v)
	if v == nil {
		return nil
	}
	if bufLen(v) != nil && v.Op != "arr" {
		// a buffer the digest was copied into
		if ps := t.laidOut(v, 1<<30); len(ps) == 1 && ps[0] != v {
			n := 0
			for _, e := range t.of("store", "copy", "append") {
				if touches(e, bufRoot(v)) {
					n++
				}
			}
			if n != 1 {
				return nil
			}
			return t.digestOf(ps[0])
		}
	}
	if v.Op == "new" {
		a := v
		for _, e := range t.of("store", "copy", "append") {
			if e.Kind == "store" && e.Loc == a {
				v = e.Val
			} else if touches(e, a) && e.Kind != "append" {
				return nil
			}
		}
	}
	if v.IsCall("crypto/md5.Sum") {
		for _, e := range t.of("store", "copy") {
			if bufRoot(e.Loc) == v && e.Loc != v {
				return nil
			}
		}
		return bytesOf(v.Args[0])
	}
	if e := t.produced(v, 0, "(hash.Hash).Sum"); e != nil && len(e.Args) == 2 && emptyList(e.Args[1]) && e.Args[0].IsCall("crypto/md5.New") {
		var w *Term
		n := 0
		for _, x := range t.of("call") {
			if x.Seq > e.Seq || len(x.Args) == 0 || x.Args[0] != e.Args[0] || x == e {
				continue
			}
			n++
			switch x.Name {
			case "(hash.Hash).Write", "(io.Writer).Write", "io.WriteString":
				w = bytesOf(x.Args[1])
			default:
				return nil
			}
		}
		if n == 1 {
			return w
		}
	}
	if v.Op == "arr" && len(v.Args) == 16 {
		// the elements of one digest in order
		var d *Term
		for i, a := range v.Args {
			k, ok := int64(-1), false
			if a.Op == "index" {
				k, ok = a.Args[1].Int()
			}
			if !ok || k != int64(i) || d != nil && d != a.Args[0] {
				return nil
			}
			d = a.Args[0]
		}
		return t.digestOf(d)
	}
	return nil
}

func ruleJ01(c *Chk) {
	for _, n := range []string{"crypto.GetMD5Hash", "crypto.GetMD5HashBytes"} {
		p := c.P(n)
		for _, t := range ends(p, "return", "panic", "back") {
			if !c.check("total", t.End == "return", t, nil, "%s does not simply return a digest", n) {
				continue
			}
			r := t.Ret[0]
			if n == "crypto.GetMD5HashBytes" {
				c.check("digest", t.digestOf(r) == param(p, 0), t, nil, "the result is not the MD5 digest of the argument")
				continue
			}
			var d *Term
			switch {
			case r.IsCall("encoding/hex.EncodeToString"):
				d = r.Args[0]
			case r.IsCall("fmt.Sprintf") && len(r.Args) == 2 && (r.Args[0].S == "%x" || r.Args[0].S == "%02x" || r.Args[0].S == `"%x"` || r.Args[0].S == `"%02x"`) && r.Args[1].Op == "arr" && len(r.Args[1].Args) == 1:
				d = r.Args[1].Args[0]
			}
			c.check("digest", d != nil && t.digestOf(d) == param(p, 0), t, nil, "the result is not the hexadecimal MD5 digest of the argument")
		}
	}
	c.atLeast("digest", 2)
}

// ---- gzip ----

// filledBy: every event that puts something into or takes something out of a
// byte buffer.
func (t *Trace) uses(v *Term) []*Event {
	var out []*Event
	for _, e := range t.of("call") {
		for _, a := range e.Args {
			if a == v || a.Op == "iface" && a.Args[0] == v {
				out = append(out, e)
				break
			}
		}
	}
	return out
}

func isMethod(e *Event, m string) bool { return strings.HasSuffix(e.Name, ")."+m) }

// wholeRead: the call reads this reader to its end into the returned value.
func (t *Trace) readAll(v *Term) (r *Term, by *Event) {
	if e := t.produced(v, 0, "io.ReadAll", "io/ioutil.ReadAll"); e != nil {
		return e.Args[0], e
	}
	if e := t.produced(v, 0, "(*bytes.Buffer).Bytes"); e != nil {
		b := e.Args[0]
		n := 0
		for _, u := range t.uses(b) {
			if u == e {
				continue
			}
			n++
			switch {
			case u.Seq > e.Seq:
				return nil, nil
			case u.Name == "(*bytes.Buffer).ReadFrom" && u.Args[0] == b:
				r, by = u.Args[1], u
			case u.Name == "io.Copy" && u.Args[0] != u.Args[1]:
				r, by = u.Args[1], u
			case u.Name == "(*bytes.Buffer).Grow":
				n--
			default:
				return nil, nil
			}
		}
		if n == 1 && emptyBuffer(b) {
			return r, by
		}
	}
	return nil, nil
}

// emptyBuffer: the buffer held nothing when it was made.
func emptyBuffer(b *Term) bool {
	return b.Op == "new" || b.IsCall("bytes.NewBuffer") && len(b.Args) == 1 && emptyList(b.Args[0])
}

// readerOver: a reader of exactly these bytes.
func readerOver(t *Trace, r *Term) *Term {
	if r == nil {
		return nil
	}
	for r.Op == "iface" {
		r = r.Args[0]
	}
	if r.IsCall("bytes.NewBuffer", "bytes.NewReader") {
		return sameBytes(r.Args[0])
	}
	if r.Op == "new" {
		// a buffer that was written once
		var v *Term
		n := 0
		for _, u := range t.uses(r) {
			if u.Name == "(*bytes.Buffer).Write" {
				v = sameBytes(u.Args[1])
				n++
			}
		}
		if n == 1 {
			return v
		}
	}
	return nil
}

func ruleZ01(c *Chk) {
	p := c.P("zip.GUnzipData")
	for _, t := range ends(p, "return", "panic", "back") {
		if !c.check("total", t.End == "return", t, nil, "GUnzipData does not read to the end in one piece or may panic") {
			continue
		}
		if t.fails() {
			c.check("no-data", isNilVal(t.Ret[0]), t, nil, "GUnzipData returns data together with an error")
			continue
		}
		r, by := t.readAll(t.Ret[0])
		for r != nil && r.Op == "iface" {
			r = r.Args[0]
		}
		nr := t.produced(r, 0, "compress/gzip.NewReader")
		if !c.check("complete", r != nil && nr != nil, t, nil, "GUnzipData succeeds with something else than all that the gzip stream contains") {
			continue
		}
		c.check("input", readerOver(t, nr.Args[0]) == param(p, 0), t, nr, "the gzip stream is not the whole input")
		c.check("checked", t.okCall(nr), t, nr, "GUnzipData goes on although the stream could not be opened")
		c.check("checked", t.okCall(by) || t.ownErr(by) && isNilVal(t.Ret[0]), t, by, "GUnzipData succeeds although the stream was not verified to its end")
		for _, u := range t.uses(r) {
			c.check("complete", u == by || isMethod(u, "Close"), t, u, "the stream is used otherwise (%s) before or after it is read", lastSeg(u.Name))
		}
	}
	p = c.P("zip.GZipData")
	for _, t := range ends(p, "return", "panic", "back") {
		if !c.check("total", t.End == "return", t, nil, "GZipData does not write its input in one piece or may panic") {
			continue
		}
		if t.fails() {
			c.check("no-data", isNilVal(t.Ret[0]), t, nil, "GZipData returns data together with an error")
			continue
		}
		out := t.produced(t.Ret[0], 0, "(*bytes.Buffer).Bytes")
		if !c.check("stream", out != nil && emptyBuffer(out.Args[0]), t, nil, "GZipData succeeds with something else than the compressed stream") {
			continue
		}
		buf := out.Args[0]
		var w *Term
		for _, u := range t.uses(buf) {
			switch u.Name {
			case "compress/gzip.NewWriter":
				w = res(u, 0)
			case "compress/gzip.NewWriterLevel":
				w = res(u, 0)
				c.check("checked", t.okCall(u), t, u, "GZipData goes on although the writer could not be made")
			case "(*bytes.Buffer).Grow", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Len", "bytes.NewBuffer":
			default:
				c.check("stream", false, t, u, "the compressed stream is used otherwise (%s)", lastSeg(u.Name))
			}
		}
		if !c.check("stream", w != nil, t, out, "no gzip writer writes the result") {
			continue
		}
		wrote, closed := 0, 0
		for _, u := range t.uses(w) {
			c.check("checked", t.okCall(u) || u.Kind != "call" || errTerm(u) == nil, t, u, "GZipData succeeds although %s failed", lastSeg(u.Name))
			switch {
			case isMethod(u, "Write") && u.Args[0] == w:
				wrote++
				c.check("input", sameBytes(u.Args[1]) == param(p, 0), t, u, "something else than the whole input is compressed")
				c.check("order", closed == 0, t, u, "data is written after the stream was closed")
			case u.Name == "io.Copy":
				wrote++
				c.check("input", readerOver(t, u.Args[1]) == param(p, 0), t, u, "something else than the whole input is compressed")
				c.check("order", closed == 0, t, u, "data is written after the stream was closed")
			case isMethod(u, "Flush"):
				c.check("order", closed == 0, t, u, "the stream is flushed after it was closed")
			case isMethod(u, "Close"):
				closed++
				c.check("order", u.Seq < out.Seq, t, u, "the bytes are taken before the stream is closed")
			default:
				c.check("stream", false, t, u, "the gzip writer is used otherwise (%s)", lastSeg(u.Name))
			}
		}
		c.check("input", wrote == 1, t, out, "the input is compressed %d times", wrote)
		c.check("order", closed >= 1, t, out, "the bytes are taken although the stream was never closed")
	}
	c.atLeast("complete", 1)
	c.atLeast("order", 2)
	c.atLeast("checked", 2)
	c.atLeast("no-data", 2)
}

// ---- reading from connections ----

func ruleN01(c *Chk) {
	for _, n := range []string{"net.ReadNBytes", "net.ReadNBytesWithTimeout"} {
		p := c.P(n)
		conn, want := param(p, 0), param(p, 1)
		for _, t := range ends(p, "return", "panic", "back") {
			if t.End == "back" && t.Loop != nil && len(t.of("call")) > 0 {
				// one round of a reading loop
				for _, e := range t.uses(conn) {
					c.check("direct", c.pieceRead(t.Loop, e, conn) != nil || hasAny(e.Name, ".SetReadDeadline"), t, e, "the connection is used otherwise (%s): data beyond the n bytes may be consumed", lastSeg(e.Name))
				}
				continue
			}
			if !c.check("total", t.End == "return", t, nil, "%s may loop without reading or panic", n) {
				continue
			}
			isRead := func(e *Event) bool {
				return e.Name == "io.ReadFull" && len(e.Args) == 2 && unface(e.Args[0]) == conn ||
					e.Name == "io.ReadAtLeast" && len(e.Args) == 3 && unface(e.Args[0]) == conn && t.eq(e.Args[2], want)
			}
			var reads []*Event
			for _, e := range t.uses(conn) {
				switch {
				case isRead(e):
					reads = append(reads, e)
				case hasAny(e.Name, ".SetReadDeadline", ".RemoteAddr", ".LocalAddr"):
				case len(e.Loops) > 0 && c.pieceRead(e.Loops[len(e.Loops)-1], e, conn) != nil:
				default:
					c.check("direct", false, t, e, "the connection is used otherwise (%s): data beyond the n bytes may be consumed", lastSeg(e.Name))
				}
			}
			if n == "net.ReadNBytesWithTimeout" {
				armed := (*Event)(nil)
				var last *Event
				for _, e := range t.uses(conn) {
					if hasAny(e.Name, ".SetReadDeadline") {
						if armed == nil {
							armed = e
						}
						last = e
					}
				}
				if c.check("armed", armed != nil && len(armed.Args) == 2, t, nil, "no read deadline is set from the timeout") {
					d := armed.Args[1]
					c.check("armed", d.Op == "timeadd" && isNowTerm(d.Args[0]) && d.Args[1] == param(p, 2), t, armed, "the read deadline is not the current time plus the given timeout")
					c.check("armed", t.fails() || t.okCall(armed), t, armed, "the call goes on although the deadline could not be set")
					for _, r := range reads {
						c.check("armed", armed.Seq < r.Seq && t.okCall(armed), t, r, "reading starts before the deadline is set")
					}
					if t.okCall(armed) {
						c.check("cleared", last != armed && isZeroTime(last.Args[1]), t, last, "the call leaves a read deadline behind")
						for _, r := range reads {
							c.check("cleared", r.Seq < last.Seq, t, r, "data is read after the deadline was cleared")
						}
					}
				}
			}
			if t.fails() {
				c.check("fails", true, t, nil, "")
				continue
			}
			ok := len(reads) == 1
			for _, l := range t.loopsIn() {
				// read in pieces until n bytes have arrived
				for _, it := range l.Iters {
					for _, e := range it.of("call") {
						got := c.pieceRead(l, e, conn)
						if got == nil || len(reads) > 0 {
							continue
						}
						b := e.Args[1].Args[0]
						f := t.Facts
						for _, x := range t.of("call") {
							if inLoop(x, l) && c.pieceRead(l, x, conn) == got {
								got = mk("bin", "+", types.Typ[types.Int], got, res(x, 0))
								break
							}
						}
						ok = t.Ret[0] == b && bufLen(b) != nil && t.eq(bufLen(b), want) && f.ProveLE(want, got, 0)
					}
				}
			}
			if ok && len(reads) == 1 {
				r := reads[0]
				b := r.Args[1]
				ok = t.Ret[0] == b && bufLen(b) != nil && t.eq(bufLen(b), want) && (t.okCall(r) || t.ownErr(r))
				for _, e := range t.Events {
					if e.Seq > r.Seq && touches(e, bufRoot(b)) {
						ok = false
					}
				}
			}
			c.check("exact", ok, t, nil, "success is reported without exactly n bytes read from the connection")
		}
	}
	c.atLeast("exact", 2)
	c.atLeast("armed", 2)
	c.atLeast("cleared", 2)
}

// pieceRead: the event reads into the part of a buffer that a counter of the
// loop marks as still empty, and every round moves the counter on by what it
// read. The counter is returned.
func (c *Chk) pieceRead(l *LoopInst, e *Event, conn *Term) *Term {
	if !isMethod(e, "Read") || len(e.Args) != 2 || unface(e.Args[0]) != conn || e.Args[1].Op != "slice" {
		return nil
	}
	b := e.Args[1]
	v := l.Var(b.Args[1])
	if v == nil || !isZero(v.Init) || b.Args[2].Op != "none" {
		return nil
	}
	for _, it := range l.Iters {
		nx := it.Next[v.Term]
		var got *Term
		for _, x := range it.of("call") {
			if inLoop(x, l) && isMethod(x, "Read") && unface(x.Args[0]) == conn {
				if got != nil {
					return nil
				}
				got = res(x, 0)
			}
		}
		if nx == nil || got == nil {
			return nil
		}
		d := linDiff(nx, v.Term)
		d.add(lin(got), -1)
		if !d.isZero() {
			return nil
		}
	}
	return v.Term
}

func unface(v *Term) *Term {
	for v != nil && (v.Op == "iface" || v.Op == "conv") {
		v = v.Args[0]
	}
	return v
}

func isNowTerm(v *Term) bool { return v != nil && v.IsCall("time.Now") }

func isZeroTime(v *Term) bool {
	if v == nil {
		return false
	}
	if v.Op == "zero" || isZeroVal(v) {
		return true
	}
	if v.Op == "mk" {
		for _, a := range v.Args {
			if !isZeroVal(a) && !isNilVal(a) && a.Op != "zero" {
				return false
			}
		}
		return true
	}
	return false
}

func init() {
	register("A01", "typestate of Encrypt on every path: full-length nonce buffer made in the call, filled by the system random source with its error checked, untouched until Seal; output laid out as nonce then Seal of the whole input under the GCM of the instance key; no data with an error", ruleA01)
	register("A02", "typestate and zone bounds of Decrypt on every path: slicing proven in range for every length, nonce and ciphertext split at the nonce size, result only from a successful Open", ruleA02)
	register("J01", "value-flow of the digest helpers: result term is the (hex of the) MD5 digest of the argument", ruleJ01)
	register("Z01", "writer/reader typestate: one write of the whole input, close with checked error before the bytes are taken; read to the end with checked error; no data with an error", ruleZ01)
	register("N01", "path-sensitive read protocol: success only after a full read into an n-byte buffer, deadline armed from the timeout before and cleared after reading", ruleN01)
}

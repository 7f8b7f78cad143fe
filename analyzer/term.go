package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// Term is a value number: two occurrences of the same term denote the same
// run-time value on the path under consideration. Terms are interned.
type Term struct {
	ID   int
	Op   string
	S    string
	Args []*Term
	T    types.Type
	Obj  any
}

var termTab = map[string]*Term{}
var termList []*Term

func mkObj(op, s string, t types.Type, obj any, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s)
	for _, a := range args {
		b.WriteByte('|')
		b.WriteString(strconv.Itoa(a.ID))
	}
	if op == "bin" && t != nil {
		// machine arithmetic depends on the width
		if n, signed, ok := intKind(t); ok && (n != 8 || !signed) {
			fmt.Fprintf(&b, "|%d%v", n, signed)
		}
	}
	k := b.String()
	if x, ok := termTab[k]; ok {
		if x.T == nil {
			x.T = t
		}
		return x
	}
	x := &Term{ID: len(termList), Op: op, S: s, Args: append([]*Term(nil), args...), T: t, Obj: obj}
	termTab[k] = x
	termList = append(termList, x)
	return x
}

// resetTerms starts a fresh universe of terms.
func resetTerms() {
	termTab = map[string]*Term{}
	termList = nil
	tNil = mk("nil", "nil", nil)
	strIDs = map[string]string{}
}

func mk(op, s string, t types.Type, args ...*Term) *Term { return mkObj(op, s, t, nil, args...) }

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	return t.str(0)
}

func (t *Term) str(d int) string {
	if d > 6 {
		return "…"
	}
	arg := func(i int) string { return t.Args[i].str(d + 1) }
	list := func(from int) string {
		var p []string
		for _, a := range t.Args[from:] {
			p = append(p, a.str(d+1))
		}
		return strings.Join(p, ", ")
	}
	switch t.Op {
	case "const", "param", "nil", "global", "func", "zero":
		if t.S == "" {
			return t.Op
		}
		return t.S
	case "new", "mkmap", "mkchan", "mkslice", "closure":
		return t.Op + "#" + strconv.Itoa(t.ID)
	case "fld", "faddr":
		s := t.S
		if i := strings.LastIndex(s, "."); i >= 0 {
			s = s[i+1:]
		}
		if t.Op == "faddr" {
			return "&" + arg(0) + "." + s
		}
		return arg(0) + "." + s
	case "iaddr":
		return "&" + arg(0) + "[" + arg(1) + "]"
	case "load":
		s := strings.TrimPrefix(arg(0), "&")
		if t.S != "0" {
			s += "'" + t.S
		}
		return s
	case "bin":
		return "(" + arg(0) + " " + t.S + " " + arg(1) + ")"
	case "lt":
		return "(" + arg(0) + " < " + arg(1) + ")"
	case "eq":
		return "(" + arg(0) + " == " + arg(1) + ")"
	case "not":
		return "!" + arg(0)
	case "call":
		return fmt.Sprintf("%s#%d(%s)", callName(t.S), t.ID, list(0))
	}
	return t.Op + "#" + strconv.Itoa(t.ID) + "(" + list(0) + ")"
}

func callName(s string) string {
	if i := strings.Index(s, "@"); i >= 0 {
		return s[:i]
	}
	return s
}

// IsCall reports whether t is the result of a call of the named function.
func (t *Term) IsCall(names ...string) bool {
	if t == nil || t.Op != "call" {
		return false
	}
	n := callName(t.S)
	for _, x := range names {
		if n == x {
			return true
		}
	}
	return false
}

func tConst(v string, t types.Type) *Term { return mk("const", v, t) }
func tInt(n int64) *Term                  { return mk("const", strconv.FormatInt(n, 10), types.Typ[types.Int]) }
func tBool(b bool) *Term {
	if b {
		return mk("const", "true", types.Typ[types.Bool])
	}
	return mk("const", "false", types.Typ[types.Bool])
}

var tNil = mk("nil", "nil", nil)

func tNot(t *Term) *Term {
	if t.Op == "not" {
		return t.Args[0]
	}
	if t.Op == "const" {
		return tBool(t.S != "true")
	}
	return mk("not", "", types.Typ[types.Bool], t)
}

func (t *Term) IsTrue() bool  { return t.Op == "const" && t.S == "true" }
func (t *Term) IsFalse() bool { return t.Op == "const" && t.S == "false" }
func (t *Term) IsNil() bool   { return t.Op == "nil" }
func (t *Term) Int() (int64, bool) {
	if t.Op != "const" {
		return 0, false
	}
	n, err := strconv.ParseInt(t.S, 10, 64)
	return n, err == nil
}

// emptyStruct: the type has one value only.
func emptyStruct(t types.Type) bool {
	if t == nil {
		return false
	}
	st, ok := t.Underlying().(*types.Struct)
	return ok && st.NumFields() == 0
}

func tEq(a, b *Term) *Term {
	if a == b || emptyStruct(a.T) && emptyStruct(b.T) {
		return tBool(true)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	if a.Op == "const" && b.Op == "const" {
		return tBool(a.S == b.S)
	}
	if (a.IsNil() && nonNilOp(b)) || (b.IsNil() && nonNilOp(a)) {
		return tBool(false)
	}
	// comparison of a boolean with a constant
	if a.IsTrue() {
		return b
	}
	if b.IsTrue() {
		return a
	}
	if a.IsFalse() {
		return tNot(b)
	}
	if b.IsFalse() {
		return tNot(a)
	}
	if (a.Op == "new" && b.Op == "new") || (a.Op == "mkchan" && b.Op == "mkchan") {
		return tBool(false)
	}
	return mk("eq", "", types.Typ[types.Bool], a, b)
}

func tLt(a, b *Term) *Term {
	if a == b {
		return tBool(false)
	}
	x, ok1 := a.Int()
	y, ok2 := b.Int()
	if ok1 && ok2 {
		return tBool(x < y)
	}
	return mk("lt", "", types.Typ[types.Bool], a, b)
}

func nonNilOp(t *Term) bool {
	switch t.Op {
	case "new", "mkmap", "mkchan", "mkslice", "closure", "func", "faddr", "iaddr", "nonnil", "append", "mk":
		return t.Op != "append" || len(t.Args) > 1
	case "const":
		return true
	case "iface":
		return true
	case "call":
		switch callName(t.S) {
		case "errors.New", "fmt.Errorf", "github.com/go-errors/errors.New", "github.com/go-errors/errors.Errorf",
			"github.com/go-errors/errors.Wrap", "time.NewTimer", "time.NewTicker", "time.After", "bytes.NewBuffer",
			"bytes.NewReader", "encoding/gob.NewEncoder", "encoding/gob.NewDecoder", "compress/gzip.NewWriter",
			"context.Background", "context.WithCancel#0", "context.WithCancel#1", "errors.Join#nonnil":
			return true
		}
	case "extract":
		return nonNilOp2(t)
	case "global":
		return t.S != "" && strings.HasPrefix(lastSeg(t.S), "Err")
	}
	return false
}

func nonNilOp2(t *Term) bool {
	if len(t.Args) == 1 && t.Args[0].IsCall("context.WithCancel", "context.WithTimeout") {
		return true
	}
	return false
}

func lastSeg(s string) string {
	if i := strings.LastIndexAny(s, "./"); i >= 0 {
		return s[i+1:]
	}
	return s
}

// Contains reports whether sub occurs in t.
func (t *Term) Contains(sub *Term) bool {
	if t == nil {
		return false
	}
	if t == sub {
		return true
	}
	for _, a := range t.Args {
		if a.Contains(sub) {
			return true
		}
	}
	return false
}

// Any reports whether some subterm satisfies p.
func (t *Term) Any(p func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if p(t) {
		return true
	}
	for _, a := range t.Args {
		if a.Any(p) {
			return true
		}
	}
	return false
}

// RootOf strips address operators.
func RootOf(t *Term) *Term {
	for t.Op == "faddr" || t.Op == "iaddr" {
		t = t.Args[0]
	}
	return t
}

// ---- linear forms ----

type Lin struct {
	Coef map[*Term]int64
	C    int64
}

func newLin() *Lin { return &Lin{Coef: map[*Term]int64{}} }

func (l *Lin) add(o *Lin, k int64) {
	for t, c := range o.Coef {
		l.Coef[t] += k * c
		if l.Coef[t] == 0 {
			delete(l.Coef, t)
		}
	}
	l.C += k * o.C
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func lin(t *Term) *Lin {
	r := newLin()
	if n, ok := t.Int(); ok {
		r.C = n
		return r
	}
	switch t.Op {
	case "bin":
		switch t.S {
		case "+":
			r.add(lin(t.Args[0]), 1)
			r.add(lin(t.Args[1]), 1)
			return r
		case "-":
			r.add(lin(t.Args[0]), 1)
			r.add(lin(t.Args[1]), -1)
			return r
		case "*":
			a, b := lin(t.Args[0]), lin(t.Args[1])
			if len(a.Coef) == 0 {
				r.add(b, a.C)
				return r
			}
			if len(b.Coef) == 0 {
				r.add(a, b.C)
				return r
			}
		}
	case "neg":
		r.add(lin(t.Args[0]), -1)
		return r
	case "zero":
		if isIntType(t.T) {
			return r
		}
	case "nil":
		return r
	case "timesub": // a.Sub(b)
		r.add(lin(t.Args[0]), 1)
		r.add(lin(t.Args[1]), -1)
		return r
	case "timeadd":
		r.add(lin(t.Args[0]), 1)
		r.add(lin(t.Args[1]), 1)
		return r
	case "len":
		x := t.Args[0]
		switch x.Op {
		case "append":
			r.add(lin(tLen(x.Args[0])), 1)
			r.C += int64(len(x.Args) - 1)
			return r
		case "appends":
			r.add(lin(tLen(x.Args[0])), 1)
			r.add(lin(tLen(x.Args[1])), 1)
			return r
		case "removeat":
			r.add(lin(tLen(x.Args[0])), 1)
			r.C--
			return r
		case "slice":
			lo, hi := x.Args[1], x.Args[2]
			if hi.Op == "none" {
				r.add(lin(tLen(x.Args[0])), 1)
			} else {
				r.add(lin(hi), 1)
			}
			if lo.Op != "none" {
				r.add(lin(lo), -1)
			}
			return r
		case "mkslice":
			r.add(lin(x.Args[0]), 1)
			return r
		case "nil":
			return r
		case "arr":
			r.C = int64(len(x.Args))
			return r
		}
		if x.Op == "const" {
			str, err := strconv.Unquote(x.S)
			if err != nil {
				str = x.S
			}
			r.C = int64(len(str))
			return r
		}
		if x.T != nil {
			at, ok := x.T.Underlying().(*types.Array)
			if pt, isPtr := x.T.Underlying().(*types.Pointer); isPtr && !ok {
				at, ok = pt.Elem().Underlying().(*types.Array)
			}
			if ok {
				r.C = at.Len()
				return r
			}
		}
	}
	r.Coef[t] = 1
	return r
}

func tLen(x *Term) *Term {
	return mk("len", "", types.Typ[types.Int], x)
}

// linDiff returns a-b.
func linDiff(a, b *Term) *Lin {
	r := newLin()
	r.add(lin(a), 1)
	r.add(lin(b), -1)
	return r
}

func (l *Lin) isConst() bool { return len(l.Coef) == 0 }

func (l *Lin) sameVec(o *Lin, k int64) bool {
	if len(l.Coef) != len(o.Coef) {
		return false
	}
	for t, c := range l.Coef {
		if o.Coef[t]*k != c {
			return false
		}
	}
	return true
}

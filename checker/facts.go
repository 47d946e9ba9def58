package main

// Path facts: boolean atoms and integer ranges over terms.

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
)

type Facts struct {
	b      map[*Term]bool
	lo, hi map[*Term]int64
	eq     map[*Term]*Term   // term -> constant
	ne     map[*Term][]*Term // term -> constants it differs from
	nonnil map[*Term]int8    // 1 non-nil, -1 nil
}

func newFacts() *Facts {
	return &Facts{b: map[*Term]bool{}, lo: map[*Term]int64{}, hi: map[*Term]int64{}, eq: map[*Term]*Term{}, ne: map[*Term][]*Term{}, nonnil: map[*Term]int8{}}
}

func (f *Facts) clone() *Facts {
	n := newFacts()
	for k, v := range f.b {
		n.b[k] = v
	}
	for k, v := range f.lo {
		n.lo[k] = v
	}
	for k, v := range f.hi {
		n.hi[k] = v
	}
	for k, v := range f.eq {
		n.eq[k] = v
	}
	for k, v := range f.ne {
		n.ne[k] = v
	}
	for k, v := range f.nonnil {
		n.nonnil[k] = v
	}
	return n
}

type Tri int8

const (
	Unknown Tri = iota
	True
	False
)

func tri(b bool) Tri {
	if b {
		return True
	}
	return False
}
func (t Tri) not() Tri {
	switch t {
	case True:
		return False
	case False:
		return True
	}
	return Unknown
}

// nilness of a term.
func (f *Facts) nilness(t *Term) Tri { // True = is nil
	if t == nil {
		return Unknown
	}
	switch t.Op {
	case OpNil:
		return True
	case OpAlloc, OpFAddr, OpIAddr, OpGlobal, OpClosure, OpFunc, OpStruct, OpConst:
		return False
	case OpIface:
		return False
	case OpAppend:
		return Unknown
	case OpArr:
		return False
	}
	if t.NonNil {
		return False
	}
	if v, ok := f.nonnil[t]; ok {
		return tri(v < 0)
	}
	if t.Op == OpConv && len(t.Args) == 1 {
		if _, ok := t.Typ.Underlying().(*types.Basic); !ok {
			if b, ok := t.Args[0].Typ.(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return False // []byte("...") is never nil
			}
			return f.nilness(t.Args[0])
		}
	}
	return Unknown
}

func (f *Facts) isNonNil(t *Term) bool { return f.nilness(t) == False }
func (f *Facts) isNil(t *Term) bool    { return f.nilness(t) == True }

// rng gives the known integer range.
func (f *Facts) rng(t *Term) (int64, int64) {
	lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
	if v, ok := t.IntVal(); ok {
		return v, v
	}
	switch t.Op {
	case OpLen:
		lo = 0
		l, h := f.lenRng(t.Args[0])
		if l > lo {
			lo = l
		}
		if h < hi {
			hi = h
		}
	case OpConv:
		if len(t.Args) == 1 && isInteger(t.Typ) && t.Args[0].Typ != nil && isInteger(t.Args[0].Typ) {
			lo, hi = f.rng(t.Args[0])
		}
	case OpBin:
		if t.Sym == "+" || t.Sym == "-" {
			if c, ok := t.Args[1].IntVal(); ok {
				l, h := f.rng(t.Args[0])
				if t.Sym == "-" {
					c = -c
				}
				if l != math.MinInt64 {
					lo = l + c
				}
				if h != math.MaxInt64 {
					hi = h + c
				}
			}
		}
	case OpPure:
		if t.Sym == "strings.Index" || t.Sym == "strings.LastIndexByte" || t.Sym == "bytes.Index" || t.Sym == "bytes.IndexByte" || t.Sym == "strings.IndexByte" || t.Sym == "strings.LastIndex" || t.Sym == "bytes.LastIndex" || t.Sym == "bytes.LastIndexByte" || t.Sym == "strings.IndexRune" {
			lo = -1
		}
	}
	if v, ok := f.lo[t]; ok && v > lo {
		lo = v
	}
	if v, ok := f.hi[t]; ok && v < hi {
		hi = v
	}
	if c, ok := f.eq[t]; ok {
		if v, ok := c.IntVal(); ok {
			return v, v
		}
	}
	return lo, hi
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// lenRng bounds len(x) for a string/slice term x.
func (f *Facts) lenRng(x *Term) (int64, int64) {
	lo, hi := int64(0), int64(math.MaxInt64)
	if s, ok := x.StrVal(); ok {
		return int64(len(s)), int64(len(s))
	}
	switch x.Op {
	case OpNil:
		return 0, 0
	case OpArr:
		return int64(len(x.Args)), int64(len(x.Args))
	case OpConv:
		if len(x.Args) == 1 && (isString(x.Typ) || isBytes(x.Typ)) && (isString(x.Args[0].Typ) || isBytes(x.Args[0].Typ)) {
			return f.lenRng(x.Args[0])
		}
	case OpBin:
		if x.Sym == "+" {
			l1, _ := f.lenRng(x.Args[0])
			l2, _ := f.lenRng(x.Args[1])
			lo = l1 + l2
		}
	case OpPure:
		// SplitN gives at most n parts
		if strings.HasSuffix(x.Sym, ".SplitN") && len(x.Args) == 3 {
			if n, ok := x.Args[2].IntVal(); ok && n > 0 {
				hi = n
			}
		}
	case OpSlice:
		if l, ok := x.Args[1].IntVal(); ok {
			if h, ok := x.Args[2].IntVal(); ok {
				return h - l, h - l
			}
			if x.Args[2].IsNil() {
				a, b := f.lenRng(x.Args[0])
				lo = a - l
				if lo < 0 {
					lo = 0
				}
				if b != math.MaxInt64 {
					hi = b - l
				}
			}
		}
	}
	if c, ok := f.eq[x]; ok {
		if s, ok := c.StrVal(); ok {
			return int64(len(s)), int64(len(s))
		}
	}
	for _, c := range f.ne[x] {
		if s, ok := c.StrVal(); ok && s == "" && lo < 1 {
			lo = 1
		}
	}
	if f.isNil(x) {
		return 0, 0
	}
	// ranges recorded on the len term itself are found through lo/hi maps by rng
	return lo, hi
}

func isBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// eqv evaluates x == y.
func (f *Facts) eqv(x, y *Term) Tri {
	if x == y {
		return True
	}
	if x.Op == OpConst || x.Op == OpNil {
		x, y = y, x
	}
	if y.Op == OpNil {
		return f.nilness(x)
	}
	if x.Op == OpConst && y.Op == OpConst {
		if x.Val.Kind() == y.Val.Kind() {
			return tri(constant.Compare(x.Val, token.EQL, y.Val))
		}
		return Unknown
	}
	if x.Op == OpNil {
		return f.nilness(y)
	}
	if x.Op == OpPure && y.Op == OpPure && typeTerms[x] != nil && typeTerms[y] != nil {
		return False // two types
	}
	if y.Op == OpConst {
		if c, ok := f.eq[x]; ok {
			if c.Val.Kind() == y.Val.Kind() {
				return tri(constant.Compare(c.Val, token.EQL, y.Val))
			}
		}
		for _, c := range f.ne[x] {
			if c == y {
				return False
			}
		}
		if v, ok := y.IntVal(); ok {
			lo, hi := f.rng(x)
			if lo == hi && lo == v {
				return True
			}
			if v < lo || v > hi {
				return False
			}
		}
		if s, ok := y.StrVal(); ok {
			lo, hi := f.lenRng(x)
			if l2, ok := f.lo[lenOf(x)]; ok && l2 > lo {
				lo = l2
			}
			if h2, ok := f.hi[lenOf(x)]; ok && h2 < hi {
				hi = h2
			}
			if int64(len(s)) < lo || int64(len(s)) > hi {
				return False
			}
			if hi == 0 && s == "" {
				return True
			}
		}
		if b, ok := y.BoolVal(); ok {
			v := f.evalAtom(x)
			if v != Unknown {
				return tri((v == True) == b)
			}
		}
		return Unknown
	}
	if cx, ok := f.eq[x]; ok {
		if cy, ok := f.eq[y]; ok {
			if cx.Val.Kind() == cy.Val.Kind() {
				return tri(constant.Compare(cx.Val, token.EQL, cy.Val))
			}
		}
	}
	nx, ny := f.nilness(x), f.nilness(y)
	if nx != Unknown && ny != Unknown && nx != ny {
		return False
	}
	if x.Op == OpAlloc && y.Op == OpAlloc {
		return False
	}
	return Unknown
}

// TT is the term table of the current run (facts need to build len terms).
var TT *TermTable

func lenOf(x *Term) *Term { return TT.mk(OpLen, "", types.Typ[types.Int], x) }

// canon turns a boolean term into an atom and a polarity.
func canon(t *Term) (*Term, bool) {
	pol := true
	for {
		if t.Op == OpUn && t.Sym == "!" {
			pol = !pol
			t = t.Args[0]
			continue
		}
		if t.Op == OpBin {
			x, y := t.Args[0], t.Args[1]
			switch t.Sym {
			case "!=":
				t = TT.mk(OpBin, "==", types.Typ[types.Bool], x, y)
				pol = !pol
				continue
			case "==":
				if b, ok := y.BoolVal(); ok {
					if !b {
						pol = !pol
					}
					t = x
					continue
				}
				if b, ok := x.BoolVal(); ok {
					if !b {
						pol = !pol
					}
					t = y
					continue
				}
				if x.Op == OpConst || x.Op == OpNil || (y.Op != OpConst && y.Op != OpNil && x.ID > y.ID) {
					t = TT.mk(OpBin, "==", types.Typ[types.Bool], y, x)
				} else {
					t = TT.mk(OpBin, "==", types.Typ[types.Bool], x, y)
				}
				return t, pol
			case ">":
				t = TT.mk(OpBin, "<", types.Typ[types.Bool], y, x)
				continue
			case ">=":
				t = TT.mk(OpBin, "<", types.Typ[types.Bool], x, y)
				pol = !pol
				continue
			case "<=":
				t = TT.mk(OpBin, "<", types.Typ[types.Bool], y, x)
				pol = !pol
				continue
			}
		}
		return t, pol
	}
}

func (f *Facts) eval(t *Term) Tri {
	a, pol := canon(t)
	v := f.evalAtom(a)
	if !pol {
		return v.not()
	}
	return v
}

func (f *Facts) evalAtom(a *Term) Tri {
	if b, ok := a.BoolVal(); ok {
		return tri(b)
	}
	if v, ok := f.b[a]; ok {
		return tri(v)
	}
	if c, ok := f.eq[a]; ok {
		if b, ok := c.BoolVal(); ok {
			return tri(b)
		}
	}
	if a.Op == OpPure && a.NonNil && len(a.Args) == 1 && f.isNil(a.Args[0]) {
		return False // see nilFalse
	}
	if a.Op == OpBin {
		x, y := a.Args[0], a.Args[1]
		switch a.Sym {
		case "==":
			return f.eqv(x, y)
		case "<":
			lx, hx := f.rng(x)
			ly, hy := f.rng(y)
			if hx < ly {
				return True
			}
			if lx >= hy {
				return False
			}
		}
	}
	if a.Op == OpAssertOK {
		x := a.Args[0]
		if f.isNil(x) {
			return False
		}
		// a value has one dynamic type
		if a.CTyp != nil && !types.IsInterface(a.CTyp) {
			for o, v := range f.b {
				if v && o.Op == OpAssertOK && o.Args[0] == x && o.CTyp != nil && !types.IsInterface(o.CTyp) && !types.Identical(o.CTyp, a.CTyp) {
					return False
				}
			}
		}
	}
	if a.Op == OpMapOK {
		if f.isNonNil(a.Args[0]) && a.NonNil {
			return True
		}
	}
	return Unknown
}

// assume records cond == val; false if contradictory.
func (f *Facts) assume(t *Term, val bool) bool {
	a, pol := canon(t)
	if !pol {
		val = !val
	}
	if v := f.evalAtom(a); v != Unknown {
		return (v == True) == val
	}
	f.b[a] = val
	if a.Op == OpBin {
		x, y := a.Args[0], a.Args[1]
		switch a.Sym {
		case "==":
			f.assumeEq(x, y, val)
		case "<":
			lx, hx := f.rng(x)
			ly, hy := f.rng(y)
			if val { // x < y
				if hy != math.MaxInt64 {
					f.setHi(x, hy-1)
				}
				if lx != math.MinInt64 {
					f.setLo(y, lx+1)
				}
			} else { // x >= y
				if ly != math.MinInt64 {
					f.setLo(x, ly)
				}
				if hx != math.MaxInt64 {
					f.setHi(y, hx)
				}
			}
		}
	}
	if a.Op == OpPure && a.NonNil && val && len(a.Args) == 1 {
		f.assume(mkEq(a.Args[0], TT.Nil()), false)
	}
	if a.Op == OpMapOK {
		v := a.Args[0]
		if !val {
			f.setZero(v)
		} else if a.NonNil {
			f.nonnil[v] = 1
		}
	}
	return true
}

func (f *Facts) setZero(v *Term) {
	if v.Typ == nil {
		return
	}
	switch u := v.Typ.Underlying().(type) {
	case *types.Basic:
		z := zeroTerm(TT, v.Typ)
		if z.Op == OpConst {
			f.eq[v] = z
		}
		_ = u
	case *types.Struct:
	default:
		f.nonnil[v] = -1
	}
}

func (f *Facts) assumeEq(x, y *Term, val bool) {
	if y.Op == OpNil {
		if val {
			f.nonnil[x] = -1
		} else {
			f.nonnil[x] = 1
		}
		// v != nil implies ok for comma-ok lookups of the same read
		return
	}
	if y.Op == OpConst {
		if val {
			f.eq[x] = y
			if v, ok := y.IntVal(); ok {
				f.setLo(x, v)
				f.setHi(x, v)
				f.propLen(x)
			}
			if s, ok := y.StrVal(); ok {
				l := lenOf(x)
				f.setLo(l, int64(len(s)))
				f.setHi(l, int64(len(s)))
			}
		} else {
			f.ne[x] = append(append([]*Term(nil), f.ne[x]...), y)
			if s, ok := y.StrVal(); ok && s == "" {
				f.setLo(lenOf(x), 1)
			}
			if v, ok := y.IntVal(); ok {
				lo, hi := f.rng(x)
				if lo == v {
					f.setLo(x, v+1)
				}
				if hi == v {
					f.setHi(x, v-1)
				}
			}
		}
		return
	}
	if val {
		if c, ok := f.eq[x]; ok {
			f.eq[y] = c
		} else if c, ok := f.eq[y]; ok {
			f.eq[x] = c
		}
		if n := f.nilness(x); n != Unknown {
			f.setNil(y, n)
		} else if n := f.nilness(y); n != Unknown {
			f.setNil(x, n)
		}
	}
}

func (f *Facts) setNil(t *Term, n Tri) {
	if n == True {
		f.nonnil[t] = -1
	} else {
		f.nonnil[t] = 1
	}
}

func (f *Facts) setLo(t *Term, v int64) {
	if t.Op == OpConst {
		return
	}
	if lo, ok := f.lo[t]; !ok || v > lo {
		f.lo[t] = v
	}
	f.propLen(t)
}
func (f *Facts) setHi(t *Term, v int64) {
	if t.Op == OpConst {
		return
	}
	if hi, ok := f.hi[t]; !ok || v < hi {
		f.hi[t] = v
	}
	f.propLen(t)
}

func (f *Facts) propLen(t *Term) {
	if t.Op != OpLen {
		return
	}
	x := t.Args[0]
	if !isString(x.Typ) {
		return
	}
	if h, ok := f.hi[t]; ok && h == 0 {
		f.eq[x] = TT.Str("")
	}
	if l, ok := f.lo[t]; ok && l >= 1 {
		e := TT.Str("")
		for _, c := range f.ne[x] {
			if c == e {
				return
			}
		}
		f.ne[x] = append(append([]*Term(nil), f.ne[x]...), e)
	}
}

// equal evaluates x == y with everything known.
func (f *Facts) equal(x, y *Term) Tri {
	if x == y {
		return True
	}
	return f.eval(TT.mk(OpBin, "==", types.Typ[types.Bool], x, y))
}

// is reports whether the boolean term is known to have the value.
func (f *Facts) is(t *Term, val bool) bool {
	v := f.eval(t)
	return v != Unknown && (v == True) == val
}

// eqConst reports whether x is known to be the constant string.
func (f *Facts) eqStr(x *Term, s string) bool { return f.eqv(x, TT.Str(s)) == True }
func (f *Facts) neStr(x *Term, s string) bool { return f.eqv(x, TT.Str(s)) == False }

// prefixLen reports whether lo is the length of a string known to be a prefix of b.
func (f *Facts) prefixLen(b, lo *Term) bool {
	if f.within(b, lo) {
		return true
	}
	for _, m := range []map[*Term]int64{f.lo, f.hi} {
		for a := range m {
			if f.indexed(a, b, lo) {
				return true
			}
		}
	}
	for a := range f.eq {
		if f.indexed(a, b, lo) {
			return true
		}
	}
	for a, v := range f.b {
		if !v || a.Op != OpPure || (a.Sym != "strings.HasPrefix" && a.Sym != "bytes.HasPrefix") || a.Args[0] != b {
			continue
		}
		p := a.Args[1]
		if mkLen(p) == lo {
			return true
		}
		if l, ok := mkLen(p).IntVal(); ok {
			if c, ok := lo.IntVal(); ok && c <= l {
				return true
			}
		}
	}
	return false
}

// indexed: a says that b contains a string at least as long as n.
func (f *Facts) indexed(a, b, n *Term) bool {
	if a.Op != OpPure || (a.Sym != "strings.Index" && a.Sym != "bytes.Index") || a.Args[0] != b {
		return false
	}
	if l, _ := f.rng(a); l < 0 {
		return false
	}
	if mkLen(a.Args[1]) == n {
		return true
	}
	l, ok1 := mkLen(a.Args[1]).IntVal()
	c, ok2 := n.IntVal()
	return ok1 && ok2 && c <= l
}

// within: the position found in b, or just behind what was found, is not behind b's end.
func (f *Facts) within(b, t *Term) bool {
	add := int64(0)
	if t.Op == OpBin && t.Sym == "+" {
		if c, ok := t.Args[1].IntVal(); ok && c >= 0 {
			t, add = t.Args[0], c
		} else if t.Args[1].Op == OpLen {
			i := t.Args[0]
			if i.Op == OpPure && (i.Sym == "strings.Index" || i.Sym == "bytes.Index" || i.Sym == "strings.LastIndex") && i.Args[0] == b && i.Args[1] == t.Args[1].Args[0] {
				l, _ := f.rng(i)
				return l >= 0
			}
		}
	}
	if t.Op != OpPure || len(t.Args) < 2 || t.Args[0] != b {
		return false
	}
	switch t.Sym {
	case "strings.IndexByte", "bytes.IndexByte", "strings.LastIndexByte", "bytes.LastIndexByte", "strings.IndexRune":
		return add <= 1
	case "strings.Index", "bytes.Index", "strings.LastIndex", "bytes.LastIndex":
		if add == 0 {
			return true
		}
		l, ok := mkLen(t.Args[1]).IntVal()
		lo, _ := f.rng(t)
		return ok && add <= l && (lo >= 0 || add <= 1)
	}
	return false
}

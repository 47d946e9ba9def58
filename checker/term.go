package main

// Provenance terms: hash-consed names for values. A term denotes one fixed
// value on one path, so facts about a term stay true once learned.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OpConst    Op = iota // val (basic constant)
	OpNil                // typed nil
	OpParam              // input of the analysed root
	OpFresh              // result of an opaque step
	OpAlloc              // address of a new object
	OpGlobal             // address of a package variable
	OpFAddr              // address of a field: args[0]=base address, sym=field
	OpIAddr              // address of an element: args[0]=base, args[1]=index
	OpLoad               // value of a memory cell at some moment: args[0]=address
	OpField              // field of a struct value
	OpIndex              // element of a slice/array/string/map value
	OpStruct             // struct value, all fields
	OpArr                // array/slice literal value
	OpTuple              // results
	OpClosure            // function value with bindings
	OpFunc               // function value
	OpIface              // interface holding args[0]
	OpAssert             // type assertion of args[0] to typ
	OpAssertOK           // its ok
	OpBin                // binary operation, sym=operator
	OpUn                 // unary operation
	OpConv               // conversion
	OpLen                // len
	OpSlice              // slicing
	OpPure               // deterministic external function, sym=name
	OpAppend             // append
	OpMapVal             // map lookup value: args[0]=map, args[1]=key
	OpMapOK              // its ok
	OpRecv               // received value: args[0]=channel
	OpRecvOK             //
	OpRange              // map/string iterator: args[0]
	OpNextKey            //
	OpNextVal            //
	OpPhi                // loop-generalised value
)

type Term struct {
	ID   int
	Op   Op
	Sym  string
	Args []*Term
	Typ  types.Type
	Val  constant.Value
	Fn   *ssa.Function
	N    int // distinguishes unique terms
	Pos  token.Pos
	// FieldVar is set for OpFAddr/OpField.
	FieldVar *types.Var
	NonNil   bool
	CTyp     types.Type // dynamic type of OpIface, asserted type of OpAssertOK
	Pair     *Term      // key <-> value of one map iteration
	WLo, WHi *int64     // bounds established when a loop value was widened
	Stable   bool       // OpLoad of a cell that never changes after construction
}

type TermTable struct {
	m    map[string]*Term
	next int
	uniq int
}

func newTermTable() *TermTable { return &TermTable{m: map[string]*Term{}} }

func (tt *TermTable) intern(key string, mk func() *Term) *Term {
	if t, ok := tt.m[key]; ok {
		return t
	}
	t := mk()
	tt.next++
	t.ID = tt.next
	tt.m[key] = t
	return t
}

func argKey(args []*Term) string {
	var b strings.Builder
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.ID)
	}
	return b.String()
}

func typKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func (tt *TermTable) mk(op Op, sym string, typ types.Type, args ...*Term) *Term {
	key := fmt.Sprintf("%d|%s|%s%s", op, sym, typKey(typ), argKey(args))
	return tt.intern(key, func() *Term {
		return &Term{Op: op, Sym: sym, Typ: typ, Args: args}
	})
}

// unique creates a term distinct from all others.
func (tt *TermTable) unique(op Op, sym string, typ types.Type, pos token.Pos, args ...*Term) *Term {
	tt.uniq++
	tt.next++
	t := &Term{ID: tt.next, Op: op, Sym: sym, Typ: typ, Args: args, N: tt.uniq, Pos: pos}
	return t
}

func (tt *TermTable) Const(v constant.Value, typ types.Type) *Term {
	key := fmt.Sprintf("c|%d|%s", v.Kind(), v.ExactString())
	return tt.intern(key, func() *Term { return &Term{Op: OpConst, Val: v, Typ: typ} })
}
func (tt *TermTable) Str(s string) *Term {
	return tt.Const(constant.MakeString(s), types.Typ[types.String])
}
func (tt *TermTable) Int(i int64) *Term {
	return tt.Const(constant.MakeInt64(i), types.Typ[types.Int])
}
func (tt *TermTable) Bool(b bool) *Term {
	return tt.Const(constant.MakeBool(b), types.Typ[types.Bool])
}
func (tt *TermTable) Nil() *Term {
	return tt.intern("nil", func() *Term { return &Term{Op: OpNil} })
}

func (t *Term) IsConst() bool { return t != nil && t.Op == OpConst }
func (t *Term) IsNil() bool   { return t != nil && t.Op == OpNil }
func (t *Term) StrVal() (string, bool) {
	if t != nil && t.Op == OpConst && t.Val.Kind() == constant.String {
		return constant.StringVal(t.Val), true
	}
	return "", false
}
func (t *Term) IntVal() (int64, bool) {
	if t != nil && t.Op == OpConst && t.Val.Kind() == constant.Int {
		i, ok := constant.Int64Val(t.Val)
		return i, ok
	}
	return 0, false
}
func (t *Term) BoolVal() (bool, bool) {
	if t != nil && t.Op == OpConst && t.Val.Kind() == constant.Bool {
		return constant.BoolVal(t.Val), true
	}
	return false, false
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "?"
	}
	if d > 7 {
		return "…"
	}
	as := func() string {
		var p []string
		for _, a := range t.Args {
			p = append(p, a.str(d+1))
		}
		return strings.Join(p, ", ")
	}
	switch t.Op {
	case OpConst:
		return t.Val.String()
	case OpNil:
		return "nil"
	case OpParam:
		return t.Sym
	case OpFresh:
		return fmt.Sprintf("%s#%d", t.Sym, t.N)
	case OpAlloc:
		return fmt.Sprintf("new(%s)#%d", t.Sym, t.N)
	case OpGlobal:
		return "&" + t.Sym
	case OpFAddr:
		return "&" + t.Args[0].str(d+1) + "." + t.Sym
	case OpIAddr:
		return "&" + t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case OpLoad:
		s := t.Args[0].str(d + 1)
		s = strings.TrimPrefix(s, "&")
		if t.Stable {
			return s
		}
		return fmt.Sprintf("%s@%d", s, t.N)
	case OpField:
		return t.Args[0].str(d+1) + "." + t.Sym
	case OpIndex:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case OpStruct:
		st, _ := t.Typ.Underlying().(*types.Struct)
		var p []string
		for i, a := range t.Args {
			if isZeroTerm(a) {
				continue
			}
			n := ""
			if st != nil && i < st.NumFields() {
				n = st.Field(i).Name() + ":"
			}
			p = append(p, n+a.str(d+1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case OpArr:
		return "[" + as() + "]"
	case OpTuple:
		return "(" + as() + ")"
	case OpClosure, OpFunc:
		return "func " + t.Fn.Name()
	case OpIface:
		return t.Args[0].str(d + 1)
	case OpAssert:
		return t.Args[0].str(d+1) + ".(" + shortType(t.Typ) + ")"
	case OpBin:
		return "(" + t.Args[0].str(d+1) + " " + t.Sym + " " + t.Args[1].str(d+1) + ")"
	case OpUn:
		return t.Sym + t.Args[0].str(d+1)
	case OpConv:
		return shortType(t.Typ) + "(" + as() + ")"
	case OpLen:
		return "len(" + as() + ")"
	case OpSlice:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + ":" + t.Args[2].str(d+1) + "]"
	case OpPure:
		return t.Sym + "(" + as() + ")"
	case OpAppend:
		return "append(" + as() + ")"
	case OpMapVal:
		return fmt.Sprintf("%s[%s]@%d", t.Args[0].str(d+1), t.Args[1].str(d+1), t.N)
	case OpMapOK:
		return "ok " + t.Args[0].str(d+1)
	case OpRecv:
		return fmt.Sprintf("<-%s@%d", t.Args[0].str(d+1), t.N)
	case OpNextKey:
		return fmt.Sprintf("key(%s)@%d", as(), t.N)
	case OpNextVal:
		return fmt.Sprintf("elem(%s)@%d", as(), t.N)
	case OpPhi:
		return fmt.Sprintf("%s~%d", t.Sym, t.N)
	}
	return fmt.Sprintf("op%d(%s)#%d", t.Op, as(), t.N)
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func isZeroTerm(t *Term) bool {
	switch t.Op {
	case OpNil:
		return true
	case OpConst:
		switch t.Val.Kind() {
		case constant.String:
			return constant.StringVal(t.Val) == ""
		case constant.Bool:
			return !constant.BoolVal(t.Val)
		case constant.Int:
			return constant.Sign(t.Val) == 0
		}
	case OpStruct:
		for _, a := range t.Args {
			if !isZeroTerm(a) {
				return false
			}
		}
		return true
	}
	return false
}

// contains reports whether sub occurs in t (structurally).
func (t *Term) contains(sub *Term) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		if x == sub {
			return true
		}
		seen[x] = true
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// any reports whether some subterm satisfies f.
func (t *Term) any(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func zeroTerm(tt *TermTable, typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return tt.Str("")
		case u.Info()&types.IsBoolean != 0:
			return tt.Bool(false)
		case u.Info()&types.IsNumeric != 0:
			return tt.Int(0)
		}
		return tt.Nil()
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroTerm(tt, u.Field(i).Type())
		}
		return tt.mk(OpStruct, "", typ, args...)
	case *types.Array:
		return tt.mk(OpArr, fmt.Sprintf("zero%d", u.Len()), typ)
	}
	return tt.Nil()
}

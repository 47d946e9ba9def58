package main

// Models of the standard library calls the rules depend on.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func pkgPathOf(fn *ssa.Function) string {
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	return ""
}

var purePkgs = map[string]bool{
	"strings": true, "bytes": true, "strconv": true, "unicode": true, "unicode/utf8": true, "path": true, "errors": true,
	"slices": true, "maps": true, "cmp": true, "math": true, "net/url": true, "sort": true,
}

// functions of pure packages that write through their arguments or call back
var notPure = map[string]bool{
	"strings.Map": true, "bytes.Map": true, "strings.FieldsFunc": true, "strings.IndexFunc": true, "errors.As": true,
}

// reflection that reads nothing which changes: the same value gives the same result
var reflectPure = map[string]bool{
	"reflect.TypeOf": true, "reflect.ValueOf": true, "reflect.FuncOf": true, "reflect.Indirect": true, "reflect.PointerTo": true, "reflect.PtrTo": true,
	"(reflect.Value).Type": true, "(reflect.Value).Kind": true, "(reflect.Value).Elem": true, "(reflect.Value).Field": true,
	"(reflect.Value).Method": true, "(reflect.Value).NumMethod": true, "(reflect.Value).NumField": true, "(reflect.Value).IsValid": true,
	"(reflect.Value).CanInterface": true, "(reflect.Value).CanSet": true, "(reflect.Value).Addr": true, "(reflect.Value).MethodByName": true,
	"(reflect.Value).Len": true, "(reflect.Value).Index": true,
	"(reflect.StructField).IsExported": true, "(reflect.Method).IsExported": true,
}

// typeTerm: the reflect.Type of a Go type.
func typeTerm(t types.Type) *Term {
	if reflectTypeT == nil {
		reflectTypeT = types.NewInterfaceType(nil, nil)
	}
	r := TT.mk(OpPure, "type:"+types.TypeString(t, nil), reflectTypeT)
	r.NonNil = true
	typeTerms[r] = t
	return r
}

var (
	typeTerms    = map[*Term]types.Type{}
	reflectTypeT types.Type
)

func elemType(r *Term) *Term {
	switch t := typeTerms[r].(type) {
	case *types.Pointer:
		return typeTerm(t.Elem())
	case *types.Slice:
		return typeTerm(t.Elem())
	}
	return nil
}

func pureResults(name string, resT *types.Tuple, args []*Term) *Term {
	if resT.Len() == 1 {
		return TT.mk(OpPure, name, resT.At(0).Type(), args...)
	}
	rs := make([]*Term, resT.Len())
	for i := range rs {
		rs[i] = TT.mk(OpPure, name+"#"+string(rune('0'+i)), resT.At(i).Type(), args...)
	}
	return tupleOf(rs...)
}

func (x *Exec) external(s *State, f *Frame, in ssa.Instruction, fn *ssa.Function, c *ssa.CallCommon, args []*Term, set func(*Term)) []*State {
	name := fn.String()
	short := fn.Name()
	sig := fn.Signature
	pkg := pkgPathOf(fn)
	recv := ""
	if sig.Recv() != nil {
		if n := namedOf(sig.Recv().Type()); n != nil {
			recv = n.Obj().Name()
		}
	}
	resT := sig.Results()

	if pkg == "sync" {
		switch recv {
		case "Mutex", "RWMutex":
			return x.lockOp(s, in, short, args[0], set)
		case "Once":
			if short == "Do" {
				return x.once(s, f, in, args, set)
			}
		}
	}
	if pkg == "sync/atomic" {
		return x.atomicOp(s, in, recv, short, sig, args, set)
	}
	if (pkg == "strings" && recv == "Builder") || (pkg == "bytes" && recv == "Buffer") {
		if x.buffer(s, in, short, sig, args, set) {
			return nil
		}
	}
	switch name {
	case "errors.New":
		t := TT.unique(OpPure, name, resT.At(0).Type(), in.Pos(), args...)
		t.NonNil = true
		set(t)
		return nil
	case "fmt.Errorf":
		t := TT.unique(OpPure, name, resT.At(0).Type(), in.Pos(), args...)
		t.NonNil = true
		set(t)
		return nil
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "net/http.StatusText", "net/http.CanonicalHeaderKey":
		set(TT.mk(OpPure, name, resT.At(0).Type(), args...))
		return nil
	case "context.TODO", "context.Background":
		t := TT.mk(OpPure, name, resT.At(0).Type())
		t.NonNil = true
		set(t)
		return nil
	case "strings.ReplaceAll", "bytes.ReplaceAll":
		if t := foldStr("strings.Replace", append(append([]*Term(nil), args...), TT.Int(-1))); t != nil && pkg == "strings" {
			set(t)
			return nil
		}
		set(TT.mk(OpPure, pkg+".Replace", resT.At(0).Type(), args[0], args[1], args[2], TT.Int(-1)))
		return nil
	case "strings.Compare", "bytes.Compare":
	case "strings.Replace", "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Index", "strings.Repeat":
		if t := foldStr(name, args); t != nil {
			set(t)
			return nil
		}
	case "bytes.Clone", "slices.Clone", "maps.Clone":
		t := TT.unique(OpAppend, "", resT.At(0).Type(), in.Pos(), TT.Nil(), args[0])
		if strings.HasPrefix(name, "maps") {
			t = TT.unique(OpAlloc, "makemap", resT.At(0).Type(), in.Pos())
			x.emit(s, "MapCopy", "", in, t, t, args[0])
		}
		set(t)
		return nil
	case "maps.Copy":
		e := x.emit(s, "MapCopy", "", in, nil, args[0], args[1])
		e.Flag = true
		return nil
	case "strings.CutPrefix", "strings.CutSuffix", "bytes.CutPrefix", "bytes.CutSuffix":
		// what is left and whether it was there: the two functions it stands for
		end := strings.TrimPrefix(short, "Cut")
		left := foldStr(pkg+".Trim"+end, args)
		if left == nil {
			left = TT.mk(OpPure, pkg+".Trim"+end, resT.At(0).Type(), args...)
		}
		had := foldStr(pkg+".Has"+end, args)
		if had == nil {
			had = TT.mk(OpPure, pkg+".Has"+end, resT.At(1).Type(), args...)
		}
		set(tupleOf(left, had))
		return nil
	}
	base := name
	if i := strings.IndexByte(base, '['); i > 0 {
		base = base[:i]
	}
	if recv == "" && purePkgs[pkg] && !notPure[base] && resT.Len() > 0 && !strings.HasPrefix(short, "Sort") {
		rs := make([]*Term, resT.Len())
		for i := range rs {
			sym := base
			if resT.Len() > 1 {
				sym += "#" + string(rune('0'+i))
			}
			rs[i] = TT.mk(OpPure, sym, resT.At(i).Type(), args...)
		}
		if len(rs) == 1 {
			set(rs[0])
		} else {
			set(tupleOf(rs...))
		}
		return nil
	}
	if name == "reflect.TypeOf" && args[0].Op == OpIface {
		if _, dyn := args[0].Args[0].Typ.Underlying().(*types.Interface); !dyn {
			set(typeTerm(args[0].Args[0].Typ))
			return nil
		}
	}
	if fn.Origin() != nil && fn.Origin().String() == "reflect.TypeFor" {
		set(typeTerm(fn.TypeArgs()[0]))
		return nil
	}
	if reflectPure[name] {
		set(pureResults(name, resT, args))
		return nil
	}
	if pkg == "time" && recv != "" && recv != "Timer" && recv != "Ticker" && resT.Len() > 0 {
		rs := make([]*Term, resT.Len())
		for i := range rs {
			rs[i] = TT.mk(OpPure, name, resT.At(i).Type(), args...)
		}
		if len(rs) == 1 {
			set(rs[0])
		} else {
			set(tupleOf(rs...))
		}
		return nil
	}
	x.escape(s, args...)
	x.havoc(s)
	res := x.fresh(name, resT, in, args...)
	res = single(res, sig)
	e := x.emit(s, "Call", name, in, res, args...)
	e.Fn = fn
	set(res)
	return nil
}

func (x *Exec) invoke(s *State, in ssa.Instruction, c *ssa.CallCommon, recv *Term, args []*Term, set func(*Term)) []*State {
	tn := "interface"
	if n := namedOf(c.Value.Type()); n != nil {
		tn = n.Obj().Name()
		if n.Obj().Pkg() != nil {
			tn = n.Obj().Pkg().Name() + "." + tn
		}
	}
	name := tn + "." + c.Method.Name()
	sig := c.Signature()
	if s.facts.nilness(recv) != False {
		x.emit(s, "MayPanic", "method call on a nil interface", in, nil, recv)
		if s.facts.nilness(recv) == Unknown {
			s.facts.nonnil[recv] = 1
		}
	}
	all := append([]*Term{recv}, args...)
	switch name {
	case "error.Error", "context.Context.Done":
		set(TT.mk(OpPure, name, sig.Results().At(0).Type(), all...))
		return nil
	}
	if tn == "reflect.Type" && !strings.HasSuffix(name, "Func") {
		// types never change
		if c.Method.Name() == "Elem" {
			if t := elemType(recv); t != nil {
				set(t)
				return nil
			}
		}
		set(pureResults(name, sig.Results(), all))
		return nil
	}
	x.escape(s, args...)
	x.havoc(s)
	res := single(x.fresh(name, sig.Results(), in, all...), sig)
	if name == "context.Context.Err" {
		// not nil once Done was observed
		for e := s.ev; e != nil; e = e.prev {
			if e.ev.Kind == "Recv" && e.ev.Args[0].Op == OpPure && e.ev.Args[0].Sym == "context.Context.Done" && e.ev.Args[0].Args[0] == recv {
				res.NonNil = true
			}
		}
	}
	if name == "context.Context.Deadline" && recv.Op == OpPure && (recv.Sym == "context.TODO" || recv.Sym == "context.Background") && res.Op == OpTuple {
		res = tupleOf(res.Args[0], TT.Bool(false))
	}
	e := x.emit(s, "Invoke", name, in, res, all...)
	e.Typ = c.Value.Type()
	set(res)
	return nil
}

func (x *Exec) lockOp(s *State, in ssa.Instruction, op string, addr *Term, set func(*Term)) []*State {
	switch op {
	case "Lock", "RLock":
		e := x.emit(s, "Lock", op, in, nil, addr)
		e.Flag = op == "RLock"
		x.havoc(s)
		s.locks = append(s.locks, Lock{addr, op == "RLock"})
	case "Unlock", "RUnlock":
		read := op == "RUnlock"
		found := -1
		for i := len(s.locks) - 1; i >= 0; i-- {
			if s.locks[i].Addr == addr && s.locks[i].Read == read {
				found = i
				break
			}
		}
		s.mlen, s.first = nil, nil
		e := x.emit(s, "Unlock", op, in, nil, addr)
		e.Flag = found >= 0
		if found >= 0 {
			s.locks = append(append([]Lock(nil), s.locks[:found]...), s.locks[found+1:]...)
		}
	case "TryLock", "TryRLock":
		n := s.clone()
		x.emit(s, "Lock", op, in, nil, addr)
		s.locks = append(s.locks, Lock{addr, op == "TryRLock"})
		setIn(s, in, TT.Bool(true))
		setIn(n, in, TT.Bool(false))
		return []*State{s, n}
	}
	return nil
}

func setIn(s *State, in ssa.Instruction, t *Term) {
	if v, ok := in.(ssa.Value); ok {
		s.top().env[v] = t
	}
}

func (x *Exec) once(s *State, f *Frame, in ssa.Instruction, args []*Term, set func(*Term)) []*State {
	for e := s.ev; e != nil; e = e.prev {
		if (e.ev.Kind == "OnceDone" || e.ev.Kind == "OnceFirst") && e.ev.Args[0] == args[0] {
			x.emit(s, "OnceDone", "", in, nil, args[0])
			return nil
		}
	}
	n := s.clone()
	x.emit(n, "OnceDone", "", in, nil, args[0])
	x.emit(s, "OnceFirst", "", in, nil, args[0])
	if args[1].Op == OpClosure || args[1].Op == OpFunc {
		fn := args[1].Fn
		if fn.Blocks != nil {
			nf := x.newFrame(fn, f.ctx, in.Pos())
			nf.callIn, nf.discard, nf.gor = in, true, f.gor
			x.bind(nf, fn, nil, args[1].Args)
			s.frames = append(s.frames, nf)
		}
	} else {
		x.emit(s, "Dyn", "", in, nil, args[1])
	}
	return []*State{s, n}
}

// atomicOp models both the functions and the methods of the typed atomics.
func (x *Exec) atomicOp(s *State, in ssa.Instruction, recv, short string, sig *types.Signature, args []*Term, set func(*Term)) []*State {
	op := short
	for _, p := range []string{"Load", "Store", "Add", "CompareAndSwap", "Swap", "And", "Or"} {
		if strings.HasPrefix(short, p) {
			op = p
			break
		}
	}
	addr := args[0]
	if s.facts.nilness(addr) == True {
		x.mayPanic(s, in, "nil dereference", addr)
	}
	var rt types.Type
	if sig.Results().Len() == 1 {
		rt = sig.Results().At(0).Type()
	}
	switch op {
	case "Load":
		r := TT.unique(OpFresh, "atomic", rt, in.Pos(), addr)
		if rt != nil && isInteger(rt) && isUnsigned(rt) {
			s.facts.lo[r] = 0
		}
		e := x.emit(s, "AtomicLoad", recv, in, r, addr)
		_ = e
		set(r)
	case "Store":
		x.escape(s, args[1])
		x.emit(s, "AtomicStore", recv, in, nil, args...)
	case "Add":
		r := TT.unique(OpFresh, "atomicadd", rt, in.Pos(), addr, args[1])
		x.emit(s, "AtomicAdd", recv, in, r, args...)
		set(r)
	case "CompareAndSwap":
		r := TT.unique(OpFresh, "cas", types.Typ[types.Bool], in.Pos(), args...)
		x.emit(s, "CAS", recv, in, r, args...)
		set(r)
	default:
		r := x.fresh("atomic", sig.Results(), in, args...)
		x.emit(s, "Atomic"+op, recv, in, r, args...)
		set(single(r, sig))
	}
	_ = token.ADD
	return nil
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// buffer models strings.Builder and bytes.Buffer as byte sequences.
func (x *Exec) buffer(s *State, in ssa.Instruction, op string, sig *types.Signature, args []*Term, set func(*Term)) bool {
	bytesT := types.NewSlice(types.Typ[types.Byte])
	cell := TT.mk(OpFAddr, "$buf", nil, args[0])
	cur, ok := s.mem[cell]
	if !ok {
		cur = TT.mk(OpArr, "", bytesT)
	}
	put := func(t *Term) {
		s.mem[cell] = TT.mk(OpPure, "concat", bytesT, cur, t)
	}
	nilErr := TT.Nil()
	switch op {
	case "WriteString", "Write":
		put(args[1])
		set(tupleOf(mkLen(args[1]), nilErr))
	case "WriteByte":
		put(TT.mk(OpArr, "", bytesT, args[1]))
		set(nilErr)
	case "WriteRune":
		put(mkConv(args[1], types.Typ[types.String]))
		set(tupleOf(TT.Int(1), nilErr))
	case "String":
		set(mkConv(cur, types.Typ[types.String]))
	case "Bytes":
		set(cur)
	case "Reset":
		s.mem[cell] = TT.mk(OpArr, "", bytesT)
	case "Grow":
	case "Len":
		set(mkLen(cur))
	default:
		return false
	}
	return true
}

// foldStr evaluates string functions of constants.
func foldStr(name string, args []*Term) *Term {
	var s []string
	var n []int64
	for _, a := range args {
		if v, ok := a.StrVal(); ok {
			s = append(s, v)
		} else if v, ok := a.IntVal(); ok {
			n = append(n, v)
		} else {
			return nil
		}
	}
	switch {
	case name == "strings.Replace" && len(s) == 3 && len(n) == 1:
		return TT.Str(strings.Replace(s[0], s[1], s[2], int(n[0])))
	case name == "strings.HasPrefix" && len(s) == 2:
		return TT.Bool(strings.HasPrefix(s[0], s[1]))
	case name == "strings.HasSuffix" && len(s) == 2:
		return TT.Bool(strings.HasSuffix(s[0], s[1]))
	case name == "strings.Contains" && len(s) == 2:
		return TT.Bool(strings.Contains(s[0], s[1]))
	case name == "strings.TrimPrefix" && len(s) == 2:
		return TT.Str(strings.TrimPrefix(s[0], s[1]))
	case name == "strings.TrimSuffix" && len(s) == 2:
		return TT.Str(strings.TrimSuffix(s[0], s[1]))
	case name == "strings.Index" && len(s) == 2:
		return TT.Int(int64(strings.Index(s[0], s[1])))
	case name == "strings.ToLower" && len(s) == 1:
		return TT.Str(strings.ToLower(s[0]))
	case name == "strings.ToUpper" && len(s) == 1:
		return TT.Str(strings.ToUpper(s[0]))
	case name == "strings.TrimSpace" && len(s) == 1:
		return TT.Str(strings.TrimSpace(s[0]))
	case name == "strings.Repeat" && len(s) == 1 && len(n) == 1 && n[0] >= 0 && n[0]*int64(len(s[0])) < 4096:
		return TT.Str(strings.Repeat(s[0], int(n[0])))
	}
	return nil
}

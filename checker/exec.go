package main

// The analysis engine: a trace-partitioned abstract interpretation of the SSA
// form. Values are provenance terms, branches refine facts about terms, loops
// are widened at their headers, repository callees are analysed in place and
// everything else is an opaque event. It yields, per entry point, the finite
// set of abstract paths with the events on each of them.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Lock struct {
	Addr *Term
	Read bool
}

type Ctx struct {
	Parent *Ctx
	Fn     *ssa.Function
	Pos    token.Pos // call site in parent
}

type Event struct {
	Kind  string
	Name  string // callee, for calls
	Pos   token.Pos
	Ctx   *Ctx
	Args  []*Term
	Res   *Term // result (tuple for several)
	Locks []Lock
	Gor   int
	Instr ssa.Instruction
	Fn    *ssa.Function // callee, when known
	Flag  bool          // meaning depends on the kind
	Typ   types.Type
	Seq   int
	Loop  *LoopTag
	Turn  [][2]*Term // LoopBack: variables of the loop, as the last turn found and left them
}

type LoopTag struct {
	Header *ssa.BasicBlock
	N      int
	Up     *LoopTag
	Out    *LoopTag // the innermost loop around the call of this frame
}

// within: the loop is that one or inside of it, also through calls.
func (l *LoopTag) within(h *ssa.BasicBlock) bool {
	for l != nil {
		if l.Header == h {
			return true
		}
		if l.Up != nil {
			l = l.Up
		} else {
			l = l.Out
		}
	}
	return false
}

func (s *State) outerLoop() *LoopTag {
	for i := len(s.frames) - 2; i >= 0; i-- {
		if t := s.frames[i].loopTag; t != nil {
			return t
		}
	}
	return nil
}

type evNode struct {
	ev   *Event
	prev *evNode
	n    int
}

type deferRec struct {
	call ssa.CallCommon
	fn   *Term
	args []*Term
	in   *ssa.Defer
}

type loopRec struct {
	phi      map[*ssa.Phi]*Term
	mem      map[*Term]*Term
	locks    int
	gen      map[*ssa.Phi]bool
	genMem   map[*Term]bool
	arrivals int
	last     bool // only its exits are still followed
}

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]*Term
	block   *ssa.BasicBlock
	pc      int
	defers  []deferRec
	callIn  ssa.Instruction // caller instruction that receives the result
	runDef  bool            // frame called for a deferred call
	loops   map[*ssa.BasicBlock]*loopRec
	gor     int
	goRoot  bool
	saved   []Lock
	ctx     *Ctx
	discard bool
	after   func(st *State, res *Term)
	loopTag *LoopTag
}

type State struct {
	frames  []*Frame
	mem     map[*Term]*Term
	elems   map[*Term][]*Term
	mlen    map[*Term]*Term // the length of a map since it last could change
	first   map[*Term]*Term // walks over a map of known length that did not start yet
	escaped map[*Term]bool
	facts   *Facts
	locks   []Lock
	ev      *evNode
	gorN    int
	done    bool
	results []*Term
	outcome string
	consts  map[*Term]*Term // atomic cells private to the path
	steps   int
}

type Path struct {
	Events  []*Event
	Facts   *Facts
	Results []*Term
	Outcome string // return, panic, loop, stuck
	St      *State
}

type Config struct {
	// Opaque names the event kind for calls that are not analysed in place.
	Opaque func(fn *ssa.Function) string
	// Owner rewriting (see roles.go) is always on.
	MaxPaths   int
	MaxSteps   int
	Exits      bool // where a covered path is cut, the ways out of the loop are still followed
	LoopMin    int  // header arrivals before a covered path is cut (2 or 3)
	InlineGo   bool
	NoInlineGo bool
	Setup      func(x *Exec, st *State, params []*Term)
}

type Exec struct {
	freeFns  map[*Term]*Term
	p        *Prog
	r        *Roles
	cfg      Config
	root     *ssa.Function
	paths    []*Path
	over     string
	visited  map[ssa.Instruction]bool
	fns      map[*ssa.Function]bool
	params   []*Term
	nForks   int
	forkAt   map[ssa.Instruction]int
	onPath   func(*Path)
	total    int
	maxDepth int
	loopSeen map[string]bool
}

func (x *Exec) maxPaths() int {
	if x.cfg.MaxPaths > 0 {
		return x.cfg.MaxPaths
	}
	return 60000
}

// bindFree: a captured variable that only ever holds one function literal of
// the enclosing function stands for that literal.
func (x *Exec) bindFree(fn *ssa.Function, depth int) {
	for _, fv := range fn.FreeVars {
		mc := x.p.literalOf(fv)
		if mc == nil || mc.Fn == ssa.Value(fn) || mc.Fn == ssa.Value(x.root) || depth > 2 {
			continue
		}
		inner := mc.Fn.(*ssa.Function)
		addr := TT.mk(OpParam, "free:"+fv.Name(), fv.Type())
		args := make([]*Term, len(inner.FreeVars))
		for i, iv := range inner.FreeVars {
			args[i] = TT.mk(OpParam, "free:"+iv.Name(), iv.Type())
			args[i].NonNil = true
		}
		t := TT.mk(OpClosure, inner.String(), mc.Type(), args...)
		t.Fn = inner
		x.freeFns[addr] = t
		x.bindFree(inner, depth+1)
	}
}

// literalOf: the function literal that the captured variable holds, if it is
// assigned once and no other captured variable has its name.
func (p *Prog) literalOf(fv *ssa.FreeVar) *ssa.MakeClosure {
	fn := fv.Parent()
	if fn.Parent() == nil {
		return nil
	}
	ix := -1
	for i, v := range fn.FreeVars {
		if v == fv {
			ix = i
		}
	}
	var cell *ssa.Alloc
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(fn) {
				continue
			}
			a, ok := mc.Bindings[ix].(*ssa.Alloc)
			if !ok || cell != nil && cell != a {
				return nil
			}
			cell = a
		}
	}
	if cell == nil || cell.Referrers() == nil {
		return nil
	}
	var lit *ssa.MakeClosure
	for _, in := range *cell.Referrers() {
		switch in := in.(type) {
		case *ssa.Store:
			mc, ok := in.Val.(*ssa.MakeClosure)
			if !ok || in.Addr != ssa.Value(cell) || lit != nil {
				return nil
			}
			lit = mc
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			inner := in.Fn.(*ssa.Function)
			for i, b := range in.Bindings {
				if b == ssa.Value(cell) && !onlyRead(inner.FreeVars[i]) {
					return nil
				}
			}
		default:
			return nil
		}
	}
	if lit == nil {
		return nil
	}
	// variables of the same name would be taken for each other
	seen := map[string]ssa.Value{}
	for _, b := range lit.Bindings {
		a, ok := b.(*ssa.Alloc)
		if !ok || seen[a.Comment] != nil && seen[a.Comment] != b {
			return nil
		}
		seen[a.Comment] = a
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && a.Heap && a.Comment != "" {
				if o := seen[a.Comment]; o != nil && o != ssa.Value(a) {
					return nil
				}
			}
		}
	}
	return lit
}

func onlyRead(v ssa.Value) bool {
	if v.Referrers() == nil {
		return true
	}
	for _, in := range *v.Referrers() {
		switch in := in.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			inner := in.Fn.(*ssa.Function)
			for i, b := range in.Bindings {
				if b == v && !onlyRead(inner.FreeVars[i]) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// Run analyses the function as an entry point.
func (x *Exec) Run(root *ssa.Function, bindings ...*Term) {
	x.root = root
	if x.visited == nil {
		x.visited = map[ssa.Instruction]bool{}
		x.fns = map[*ssa.Function]bool{}
	}
	st := &State{mem: map[*Term]*Term{}, elems: map[*Term][]*Term{}, escaped: map[*Term]bool{}, facts: newFacts()}
	fr := x.newFrame(root, nil, token.NoPos)
	x.params = nil
	for i, pr := range root.Params {
		t := TT.mk(OpParam, pr.Name(), pr.Type())
		if i == 0 && root.Signature.Recv() != nil {
			t.NonNil = true
		}
		fr.env[pr] = t
		x.params = append(x.params, t)
	}
	for i, fv := range root.FreeVars {
		if i < len(bindings) && bindings[i] != nil {
			fr.env[fv] = bindings[i]
		} else {
			t := TT.mk(OpParam, "free:"+fv.Name(), fv.Type())
			t.NonNil = true
			fr.env[fv] = t
		}
	}
	x.freeFns = map[*Term]*Term{}
	if len(bindings) == 0 {
		x.bindFree(root, 0)
	}
	st.frames = []*Frame{fr}
	if x.cfg.Setup != nil {
		x.cfg.Setup(x, st, x.params)
	}
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		more := x.run(s)
		for i := len(more) - 1; i >= 0; i-- {
			work = append(work, more[i])
		}
		if s.done && s.outcome != "seen" {
			x.total++
			pt := &Path{Facts: s.facts, Results: s.results, Outcome: s.outcome, St: s}
			n := 0
			if s.ev != nil {
				n = s.ev.n
			}
			pt.Events = make([]*Event, n)
			for e := s.ev; e != nil; e = e.prev {
				pt.Events[e.n-1] = e.ev
			}
			if x.onPath != nil {
				x.onPath(pt)
			} else {
				x.paths = append(x.paths, pt)
			}
			if x.total > x.maxPaths() {
				x.over = fmt.Sprintf("more than %d paths", x.maxPaths())
				return
			}
		}
	}
}

func (x *Exec) newFrame(fn *ssa.Function, parent *Ctx, pos token.Pos) *Frame {
	x.fns[fn] = true
	return &Frame{fn: fn, env: map[ssa.Value]*Term{}, block: fn.Blocks[0], loops: map[*ssa.BasicBlock]*loopRec{}, ctx: &Ctx{Parent: parent, Fn: fn, Pos: pos}}
}

func (s *State) clone() *State {
	n := &State{facts: s.facts.clone(), ev: s.ev, gorN: s.gorN, steps: s.steps}
	n.mem = make(map[*Term]*Term, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.elems = make(map[*Term][]*Term, len(s.elems))
	for k, v := range s.elems {
		n.elems[k] = v
	}
	for k, v := range s.mlen {
		if n.mlen == nil {
			n.mlen = map[*Term]*Term{}
		}
		n.mlen[k] = v
	}
	for k, v := range s.first {
		if n.first == nil {
			n.first = map[*Term]*Term{}
		}
		n.first[k] = v
	}
	n.escaped = make(map[*Term]bool, len(s.escaped))
	for k, v := range s.escaped {
		n.escaped[k] = v
	}
	n.locks = append([]Lock(nil), s.locks...)
	for _, f := range s.frames {
		nf := *f
		nf.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			nf.env[k] = v
		}
		nf.defers = append([]deferRec(nil), f.defers...)
		nf.loops = make(map[*ssa.BasicBlock]*loopRec, len(f.loops))
		for k, v := range f.loops {
			c := *v
			c.gen = map[*ssa.Phi]bool{}
			for p, b := range v.gen {
				c.gen[p] = b
			}
			c.genMem = map[*Term]bool{}
			for p, b := range v.genMem {
				c.genMem[p] = b
			}
			nf.loops[k] = &c
		}
		n.frames = append(n.frames, &nf)
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (x *Exec) emit(s *State, kind, name string, in ssa.Instruction, res *Term, args ...*Term) *Event {
	n := 1
	if s.ev != nil {
		n = s.ev.n + 1
	}
	e := &Event{Kind: kind, Name: name, Args: args, Res: res, Seq: n, Instr: in}
	if len(s.frames) > 0 {
		e.Ctx = s.top().ctx
		e.Gor = s.top().gor
		for i := len(s.frames) - 1; i >= 0; i-- {
			if s.frames[i].loopTag != nil {
				e.Loop = s.frames[i].loopTag
				break
			}
		}
	}
	if in != nil {
		e.Pos = in.Pos()
		if !e.Pos.IsValid() {
			if v, ok := in.(ssa.Value); ok {
				for _, op := range in.Operands(nil) {
					if *op != nil && (*op).Pos().IsValid() {
						e.Pos = (*op).Pos()
						break
					}
				}
				_ = v
			}
		}
	}
	e.Locks = append([]Lock(nil), s.locks...)
	s.ev = &evNode{ev: e, prev: s.ev, n: n}
	return e
}

// ---- values ----

func (x *Exec) val(s *State, f *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return globalTerm(v)
	case *ssa.Function:
		t := TT.mk(OpFunc, v.String(), v.Type())
		t.Fn = v
		return t
	case *ssa.Builtin:
		return TT.mk(OpFresh, "builtin:"+v.Name(), v.Type())
	}
	if t, ok := f.env[v]; ok {
		return t
	}
	// a value of a block that was not executed on this path (dead operand)
	return TT.unique(OpFresh, "undef", v.Type(), v.Pos())
}

func mkConv(a *Term, typ types.Type) *Term {
	if a.Op == OpConst {
		switch {
		case isString(typ) && a.Val.Kind() == constant.Int:
			if i, ok := a.IntVal(); ok {
				return TT.Str(string(rune(i)))
			}
		case isInteger(typ) && a.Val.Kind() == constant.Int:
			return a
		case isString(typ) && a.Val.Kind() == constant.String:
			return a
		}
	}
	if a.Op == OpNil {
		if isString(typ) {
			return TT.Str("")
		}
		return a
	}
	if isString(typ) && isString(a.Typ) {
		return a
	}
	if isString(typ) && a.Op == OpConv && isBytes(a.Typ) && isString(a.Args[0].Typ) {
		return a.Args[0]
	}
	if isBytes(typ) && isBytes(a.Typ) {
		return a
	}
	if isInteger(typ) && isInteger(a.Typ) {
		if a.Op == OpConv && len(a.Args) == 1 {
			return TT.mk(OpConv, typKey(typ), typ, a.Args[0])
		}
	}
	return TT.mk(OpConv, typKey(typ), typ, a)
}

func mkLen(t *Term) *Term {
	switch t.Op {
	case OpNil:
		return TT.Int(0)
	case OpConst:
		if s, ok := t.StrVal(); ok {
			return TT.Int(int64(len(s)))
		}
	case OpArr:
		return TT.Int(int64(len(t.Args)))
	case OpAlloc:
		if t.Sym == "makeslice" {
			return t.Args[0]
		}
	case OpConv:
		if len(t.Args) == 1 && (isString(t.Typ) || isBytes(t.Typ)) && (isString(t.Args[0].Typ) || isBytes(t.Args[0].Typ)) {
			return mkLen(t.Args[0])
		}
	case OpSlice:
		if h, ok := t.Args[2].IntVal(); ok {
			if l, ok := t.Args[1].IntVal(); ok {
				return TT.Int(h - l)
			} else if t.Args[1].IsNil() {
				return TT.Int(h)
			}
		}
	case OpAppend:
		b, a := mkLen(t.Args[0]), mkLen(t.Args[1])
		if bi, ok := b.IntVal(); ok {
			if bi == 0 {
				return a
			}
		}
		return mkBin(token.ADD, b, a, types.Typ[types.Int])
	}
	return lenOf(t)
}

func mkBin(op token.Token, a, b *Term, typ types.Type) *Term {
	if a.Op == OpConst && b.Op == OpConst && a.Val.Kind() == b.Val.Kind() {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return TT.Bool(constant.Compare(a.Val, op, b.Val))
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			if a.Val.Kind() == constant.Int || (op == token.ADD && a.Val.Kind() == constant.String) {
				return TT.Const(constant.BinaryOp(a.Val, op, b.Val), typ)
			}
		case token.QUO:
			if a.Val.Kind() == constant.Int && constant.Sign(b.Val) != 0 {
				return TT.Const(constant.BinaryOp(a.Val, token.QUO_ASSIGN, b.Val), typ)
			}
		}
	}
	if op == token.ADD || op == token.SUB {
		if c, ok := b.IntVal(); ok {
			if op == token.SUB {
				c = -c
			}
			if c == 0 {
				return a
			}
			if a.Op == OpBin && a.Sym == "+" {
				if c2, ok := a.Args[1].IntVal(); ok {
					return mkBin(token.ADD, a.Args[0], TT.Int(c+c2), typ)
				}
			}
			return TT.mk(OpBin, "+", typ, a, TT.Int(c))
		}
		if op == token.ADD && isInteger(typ) {
			if _, ok := a.IntVal(); ok {
				return mkBin(op, b, a, typ)
			}
		}
		if op == token.ADD && isString(typ) {
			if s, ok := a.StrVal(); ok && s == "" {
				return b
			}
			if s, ok := b.StrVal(); ok && s == "" {
				return a
			}
		}
	}
	if op == token.EQL && a == b {
		return TT.Bool(true)
	}
	if op == token.NEQ && a == b {
		return TT.Bool(false)
	}
	return TT.mk(OpBin, op.String(), typ, a, b)
}

func (x *Exec) field(t *Term, st *types.Struct, i int) *Term {
	if t.Op == OpStruct {
		return t.Args[i]
	}
	r := TT.mk(OpField, st.Field(i).Name(), st.Field(i).Type(), t)
	r.FieldVar = st.Field(i)
	return r
}

func (x *Exec) mkStruct(typ types.Type, args []*Term) *Term {
	// eta: {x.a, x.b, ...} is x
	if len(args) > 0 && args[0].Op == OpField {
		base := args[0].Args[0]
		st := typ.Underlying().(*types.Struct)
		same := types.Identical(base.Typ, typ)
		for i, a := range args {
			if !same || a.Op != OpField || a.Args[0] != base || a.Sym != st.Field(i).Name() {
				same = false
				break
			}
		}
		if same {
			return base
		}
	}
	return TT.mk(OpStruct, "", typ, args...)
}

func (x *Exec) faddr(base *Term, fv *types.Var) *Term {
	t := TT.mk(OpFAddr, fv.Name(), types.NewPointer(fv.Type()), base)
	t.FieldVar = fv
	return t
}

func pointee(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func rootOf(a *Term) *Term {
	for a.Op == OpFAddr || a.Op == OpIAddr || a.Op == OpSlice {
		a = a.Args[0]
	}
	return a
}

// memGet composes the value held at addr from memory, or nil.
func (x *Exec) memGet(s *State, addr *Term, typ types.Type) *Term {
	if st, ok := typ.Underlying().(*types.Struct); ok {
		base := s.mem[addr]
		over := false
		args := make([]*Term, st.NumFields())
		for i := range args {
			fa := x.faddr(addr, st.Field(i))
			if x.hasOverride(s, fa, st.Field(i).Type()) {
				args[i] = x.memGet(s, fa, st.Field(i).Type())
				over = true
			}
		}
		if base == nil && addr.Op == OpFAddr {
			if up := x.upValue(s, addr); up != nil {
				base = up
			}
		}
		if !over {
			return base
		}
		for i := range args {
			if args[i] == nil {
				if base != nil {
					args[i] = x.field(base, st, i)
				} else {
					args[i] = x.loadUnknown(s, x.faddr(addr, st.Field(i)), st.Field(i).Type())
				}
			}
		}
		return x.mkStruct(typ, args)
	}
	if v, ok := s.mem[addr]; ok {
		if at, ok := typ.Underlying().(*types.Array); ok {
			if arr := x.arrayOf(s, addr, v, at, typ); arr != nil {
				return arr
			}
		}
		return v
	}
	if addr.Op == OpFAddr {
		return x.upValue(s, addr)
	}
	return nil
}

// arrayOf gives the value of a small array of this path whose elements were
// put one by one at known places.
func (x *Exec) arrayOf(s *State, addr, base *Term, at *types.Array, typ types.Type) *Term {
	if addr.Op != OpAlloc || s.escaped[addr] || at.Len() > 16 || base.Op != OpArr || !strings.HasPrefix(base.Sym, "zero") {
		return nil
	}
	args := make([]*Term, at.Len())
	n := 0
	for i := range args {
		ia := TT.mk(OpIAddr, "", types.NewPointer(at.Elem()), addr, TT.Int(int64(i)))
		if v := x.memGet(s, ia, at.Elem()); v != nil {
			args[i] = v
			n++
		} else {
			args[i] = zeroTerm(TT, at.Elem())
		}
	}
	if n == 0 || n != len(s.elems[addr]) {
		return nil
	}
	return TT.mk(OpArr, "", typ, args...)
}

// upValue: the field value taken from the enclosing struct's known value.
func (x *Exec) upValue(s *State, addr *Term) *Term {
	base := addr.Args[0]
	bt := pointee(base.Typ)
	if bt == nil {
		return nil
	}
	st, ok := bt.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var bv *Term
	if v, ok := s.mem[base]; ok {
		bv = v
	} else if base.Op == OpFAddr {
		bv = x.upValue(s, base)
	} else if base.Op == OpIAddr {
		bv = x.elemValue(s, base, bt, false)
	}
	if bv == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == addr.FieldVar || st.Field(i).Name() == addr.Sym {
			return x.field(bv, st, i)
		}
	}
	return nil
}

func (x *Exec) hasOverride(s *State, addr *Term, typ types.Type) bool {
	if _, ok := s.mem[addr]; ok {
		return true
	}
	if st, ok := typ.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if x.hasOverride(s, x.faddr(addr, st.Field(i)), st.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// elemSources lists the values that may have been put into a slice.
func (x *Exec) elemSources(s *State, t *Term, seen map[*Term]bool) (src []*Term, known bool) {
	if seen[t] {
		return nil, true
	}
	seen[t] = true
	switch t.Op {
	case OpNil:
		return nil, true
	case OpArr:
		return append([]*Term(nil), t.Args...), true
	case OpAlloc:
		if t.Sym == "makeslice" {
			return s.elems[t], true
		}
	case OpAppend:
		a, ok1 := x.elemSources(s, t.Args[0], seen)
		b, ok2 := x.elemSources(s, t.Args[1], seen)
		return append(append(append([]*Term(nil), a...), b...), s.elems[t]...), ok1 && ok2
	case OpPhi:
		known = true
		for _, a := range t.Args {
			b, ok := x.elemSources(s, a, seen)
			src = append(src, b...)
			known = known && ok
		}
		return src, known
	case OpSlice:
		return x.elemSources(s, t.Args[0], seen)
	}
	return nil, false
}

// elemValue gives the value of a slice or array element.
func (x *Exec) elemValue(s *State, addr *Term, typ types.Type, unknown bool) *Term {
	base, idx := addr.Args[0], addr.Args[1]
	if i, ok := idx.IntVal(); ok {
		if base.Op == OpArr && i < int64(len(base.Args)) {
			return base.Args[i]
		}
		if base.Op == OpAppend {
			if n, ok := mkLen(base.Args[0]).IntVal(); ok {
				if i >= n {
					return x.elemValue(s, TT.mk(OpIAddr, "", addr.Typ, base.Args[1], TT.Int(i-n)), typ, unknown)
				}
				return x.elemValue(s, TT.mk(OpIAddr, "", addr.Typ, base.Args[0], idx), typ, unknown)
			}
		}
	}
	if base.Op == OpAppend && (base.Args[0].Op == OpNil || (base.Args[0].Op == OpArr && len(base.Args[0].Args) == 0)) {
		return x.elemValue(s, TT.mk(OpIAddr, "", addr.Typ, base.Args[1], idx), typ, unknown)
	}
	src, known := x.elemSources(s, base, map[*Term]bool{})
	if known && len(src) > 0 {
		var rng *Term
		op := OpNextVal
		same := true
		for _, e := range src {
			if (e.Op != OpNextVal && e.Op != OpNextKey) || (rng != nil && (e.Args[0] != rng || e.Op != op)) {
				same = false
				break
			}
			rng, op = e.Args[0], e.Op
		}
		if same {
			key := fmt.Sprintf("elem|%d|%d|%d", base.ID, idx.ID, op)
			return TT.intern(key, func() *Term {
				TT.uniq++
				return &Term{Op: op, Sym: "elem", Typ: typ, Args: []*Term{rng, base, idx}, N: TT.uniq, NonNil: true}
			})
		}
	}
	return TT.mk(OpIndex, "", typ, base, idx)
}

func (x *Exec) loadUnknown(s *State, addr *Term, typ types.Type) *Term {
	if addr.Op == OpIAddr {
		return x.elemValue(s, addr, typ, true)
	}
	if addr.Op == OpFAddr && addr.FieldVar != nil {
		if own := x.r.ownerOf(x, s, addr); own != nil {
			return own
		}
		if x.p.stable[addr.FieldVar] {
			// a stable field of a non-stable base still names one value
			t := TT.mk(OpLoad, "stable", typ, addr)
			t.Stable = true
			if x.p.fieldInit[addr.FieldVar] && !x.r.nullable[addr.FieldVar] {
				t.NonNil = x.r.nonNilField(addr.FieldVar)
			}
			return t
		}
		if x.r.nonNilField(addr.FieldVar) && !x.p.notMade[addr.FieldVar] {
			t := TT.unique(OpLoad, "", typ, token.NoPos, addr)
			t.NonNil = true // replaced, but always by a new one
			return t
		}
	}
	if addr.Op == OpGlobal {
		if !strings.HasPrefix(addr.Sym, x.p.Mod) && types.Identical(typ, errType) {
			// sentinel errors of other packages are fixed values
			t := TT.mk(OpLoad, "stable", typ, addr)
			t.Stable, t.NonNil = true, true
			return t
		}
		return TT.unique(OpLoad, "", typ, token.NoPos, addr)
	}
	if addr.Op == OpParam && strings.HasPrefix(addr.Sym, "free:") {
		if t := x.freeFns[addr]; t != nil {
			return t // a function literal of the enclosing function
		}
		t := TT.mk(OpLoad, "stable", typ, addr) // captured variable
		t.Stable = true
		return t
	}
	return TT.unique(OpLoad, "", typ, token.NoPos, addr)
}

func (x *Exec) load(s *State, addr *Term, typ types.Type, in ssa.Instruction) *Term {
	if addr.Op == OpGlobal {
		if u, ok := in.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok {
				if t, ok := x.p.globals[g]; ok {
					return t
				}
			}
		}
	}
	v := x.memGet(s, addr, typ)
	if v == nil {
		v = x.loadUnknown(s, addr, typ)
		if st, ok := typ.Underlying().(*types.Struct); ok && v.Op == OpLoad {
			// partially known structs were composed above; fully unknown: one term
			_ = st
		}
		if !x.isHavocable(s, addr) {
			s.mem[addr] = v
		} else if addr.Op == OpFAddr || addr.Op == OpGlobal {
			s.mem[addr] = v // until the next havoc
		}
	}
	if x.tracked(addr) && !x.ownPrivate(s, addr) {
		x.emit(s, "Load", fieldName(addr), in, v, addr)
	}
	return v
}

func fieldName(a *Term) string {
	if a.Op == OpGlobal {
		return a.Sym
	}
	if a.Op == OpFAddr {
		n := namedOf(a.Args[0].Typ)
		if n != nil {
			return n.Obj().Name() + "." + a.Sym
		}
		return "?." + a.Sym
	}
	return ""
}

// tracked: fields of repository structs and package variables.
func (x *Exec) tracked(a *Term) bool {
	if a.Op == OpGlobal {
		return true
	}
	if a.Op != OpFAddr || a.FieldVar == nil {
		return false
	}
	n := namedOf(a.Args[0].Typ)
	return n != nil && x.p.isRepoPkg(n.Obj().Pkg())
}

// ownPrivate: memory of an object of this path nobody else has seen yet.
func (x *Exec) ownPrivate(s *State, addr *Term) bool {
	r := rootOf(addr)
	return (r.Op == OpAlloc || r.Op == OpAppend || r.Op == OpArr) && !s.escaped[r]
}

func (x *Exec) isHavocable(s *State, addr *Term) bool {
	r := rootOf(addr)
	if r.Op == OpAlloc || r.Op == OpAppend || r.Op == OpArr {
		if !s.escaped[r] {
			return false
		}
		if r.Stable { // private variable
			return false
		}
	}
	for a := addr; a.Op == OpFAddr; a = a.Args[0] {
		if a.FieldVar != nil && x.p.stable[a.FieldVar] {
			return false
		}
	}
	return true
}

func (x *Exec) havoc(s *State) {
	s.mlen, s.first = nil, nil
	for a := range s.mem {
		if x.isHavocable(s, a) {
			delete(s.mem, a)
		}
	}
}

// escape marks every object reachable from the term as shared.
func (x *Exec) escape(s *State, ts ...*Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OpAlloc || t.Op == OpAppend {
			if !s.escaped[t] {
				s.escaped[t] = true
				for a, v := range s.mem {
					if rootOf(a) == t {
						rec(v)
					}
				}
				for _, e := range s.elems[t] {
					rec(e)
				}
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
}

func (x *Exec) store(s *State, addr, v *Term, typ types.Type, in ssa.Instruction) {
	if st, ok := typ.Underlying().(*types.Struct); ok {
		x.clearOverrides(s, addr, st)
	}
	if addr.Op == OpIAddr {
		b := addr.Args[0]
		for b.Op == OpSlice {
			b = b.Args[0]
		}
		s.elems[b] = append(append([]*Term(nil), s.elems[b]...), v)
		// other element addresses of the same base with a symbolic index may alias
		for a := range s.mem {
			if a.Op == OpIAddr && a.Args[0] == addr.Args[0] && a != addr {
				if _, ok1 := a.Args[1].IntVal(); ok1 {
					if _, ok2 := addr.Args[1].IntVal(); ok2 {
						continue
					}
				}
				delete(s.mem, a)
			}
		}
	}
	s.mem[addr] = v
	r := rootOf(addr)
	if (r.Op != OpAlloc && r.Op != OpAppend) || s.escaped[r] {
		if !(r.Op == OpAlloc && r.Stable) {
			x.escape(s, v)
		}
	}
	if x.tracked(addr) || addr.Op == OpIAddr || (addr.Op == OpFAddr && rootOf(addr).Op != OpAlloc) {
		e := x.emit(s, "Store", fieldName(addr), in, nil, addr, v)
		e.Flag = x.ownPrivate(s, addr)
	}
}

func (x *Exec) clearOverrides(s *State, addr *Term, st *types.Struct) {
	for i := 0; i < st.NumFields(); i++ {
		fa := x.faddr(addr, st.Field(i))
		delete(s.mem, fa)
		if sub, ok := st.Field(i).Type().Underlying().(*types.Struct); ok {
			x.clearOverrides(s, fa, sub)
		}
	}
}

func (x *Exec) fresh(sym string, typ types.Type, in ssa.Instruction, args ...*Term) *Term {
	var pos token.Pos
	if in != nil {
		pos = in.Pos()
	}
	if tup, ok := typ.(*types.Tuple); ok {
		if tup.Len() == 0 {
			return TT.mk(OpTuple, "", nil)
		}
		rs := make([]*Term, tup.Len())
		for i := range rs {
			rs[i] = TT.unique(OpFresh, fmt.Sprintf("%s.%d", sym, i), tup.At(i).Type(), pos, args...)
		}
		return TT.mk(OpTuple, "", nil, rs...)
	}
	return TT.unique(OpFresh, sym, typ, pos, args...)
}

func tupleOf(ts ...*Term) *Term { return TT.mk(OpTuple, "", nil, ts...) }

// ---- stepping ----

func (x *Exec) finish(s *State, outcome string, res []*Term) {
	s.done, s.outcome, s.results = true, outcome, res
}

func (x *Exec) run(s *State) []*State {
	for !s.done {
		s.steps++
		if s.steps > 40000 {
			x.over = "a path is too long"
			x.finish(s, "stuck", nil)
			return nil
		}
		f := s.top()
		if f.pc >= len(f.block.Instrs) {
			x.finish(s, "stuck", nil)
			return nil
		}
		in := f.block.Instrs[f.pc]
		f.pc++
		x.visited[in] = true
		if more := x.step(s, f, in); more != nil {
			return more
		}
	}
	return nil
}

func (x *Exec) step(s *State, f *Frame, in ssa.Instruction) []*State {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi: // set on entry
	case *ssa.Alloc:
		t := TT.unique(OpAlloc, shortType(pointee(in.Type())), in.Type(), in.Pos())
		t.Stable = x.p.allocPrivate(in)
		f.env[in] = t
		s.mem[t] = zeroTerm(TT, pointee(in.Type()))
	case *ssa.UnOp:
		a := x.val(s, f, in.X)
		switch in.Op {
		case token.MUL:
			if x.deref(s, a, in) {
				return nil
			}
			v := x.load(s, a, pointee(in.X.Type()), in)
			f.env[in] = v
			if a.Op == OpIAddr && (v.Op == OpNextVal || v.Op == OpNextKey) && v.Sym == "elem" {
				x.emit(s, "Elem", "", in, v, a.Args[0], a.Args[1])
			}
		case token.ARROW:
			et := in.X.Type().Underlying().(*types.Chan).Elem()
			v := TT.unique(OpRecv, "", et, in.Pos(), a)
			x.havoc(s)
			if in.CommaOk {
				ok := TT.unique(OpRecvOK, "", types.Typ[types.Bool], in.Pos(), a)
				f.env[in] = tupleOf(v, ok)
			} else {
				f.env[in] = v
			}
			x.emit(s, "Recv", "", in, f.env[in], a)
		case token.NOT:
			if b, ok := a.BoolVal(); ok {
				f.env[in] = TT.Bool(!b)
			} else {
				f.env[in] = TT.mk(OpUn, "!", in.Type(), a)
			}
		default:
			if a.Op == OpConst && a.Val.Kind() == constant.Int {
				var size uint
				if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
					switch b.Kind() {
					case types.Uint8:
						size = 8
					case types.Uint16:
						size = 16
					case types.Uint32:
						size = 32
					default:
						size = 64
					}
				}
				f.env[in] = TT.Const(constant.UnaryOp(in.Op, a.Val, size), in.Type())
			} else {
				f.env[in] = TT.mk(OpUn, in.Op.String(), in.Type(), a)
			}
		}
	case *ssa.BinOp:
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && (in.Op == token.EQL || in.Op == token.NEQ) {
			return x.boolEq(s, in, x.val(s, f, in.X), x.val(s, f, in.Y))
		}
		f.env[in] = mkBin(in.Op, x.val(s, f, in.X), x.val(s, f, in.Y), in.Type())
		if in.Op == token.QUO || in.Op == token.REM {
			if isInteger(in.Type()) {
				lo, hi := s.facts.rng(x.val(s, f, in.Y))
				if lo <= 0 && hi >= 0 {
					x.mayPanic(s, in, "division by zero", x.val(s, f, in.Y))
				}
			}
		}
	case *ssa.ChangeType:
		f.env[in] = x.val(s, f, in.X)
	case *ssa.Convert:
		f.env[in] = mkConv(x.val(s, f, in.X), in.Type())
	case *ssa.MultiConvert:
		f.env[in] = mkConv(x.val(s, f, in.X), in.Type())
	case *ssa.ChangeInterface:
		f.env[in] = x.val(s, f, in.X)
	case *ssa.SliceToArrayPointer:
		f.env[in] = x.fresh("arrayptr", in.Type(), in, x.val(s, f, in.X))
	case *ssa.MakeInterface:
		a := x.val(s, f, in.X)
		t := TT.mk(OpIface, typKey(in.X.Type()), in.Type(), a)
		t.CTyp = in.X.Type()
		f.env[in] = t
	case *ssa.TypeAssert:
		f.env[in] = x.typeAssert(s, x.val(s, f, in.X), in)
	case *ssa.Extract:
		t := x.val(s, f, in.Tuple)
		if t.Op == OpTuple && in.Index < len(t.Args) {
			f.env[in] = t.Args[in.Index]
		} else {
			f.env[in] = TT.mk(OpIndex, "tuple", in.Type(), t, TT.Int(int64(in.Index)))
		}
	case *ssa.Field:
		f.env[in] = x.field(x.val(s, f, in.X), in.X.Type().Underlying().(*types.Struct), in.Field)
	case *ssa.FieldAddr:
		b := x.val(s, f, in.X)
		if x.deref(s, b, in) {
			return nil
		}
		f.env[in] = x.faddr(b, fieldVarOf(in))
	case *ssa.Index:
		b, i := x.val(s, f, in.X), x.val(s, f, in.Index)
		x.bounds(s, in, b, i)
		f.env[in] = x.index(s, b, i, in.Type())
	case *ssa.IndexAddr:
		b, i := x.val(s, f, in.X), x.val(s, f, in.Index)
		x.bounds(s, in, b, i)
		f.env[in] = TT.mk(OpIAddr, "", in.Type(), b, i)
	case *ssa.Lookup:
		b, k := x.val(s, f, in.X), x.val(s, f, in.Index)
		mt, ok := in.X.Type().Underlying().(*types.Map)
		if !ok { // string
			x.bounds(s, in, b, k)
			f.env[in] = x.index(s, b, k, in.Type())
			break
		}
		f.env[in] = x.mapGet(s, in, b, k, mt, in.CommaOk)
	case *ssa.Slice:
		f.env[in] = x.slice(s, f, in)
	case *ssa.MakeSlice:
		t := TT.unique(OpAlloc, "makeslice", in.Type(), in.Pos(), x.val(s, f, in.Len))
		f.env[in] = t
		if lo, _ := s.facts.rng(x.val(s, f, in.Len)); lo < 0 && x.val(s, f, in.Len).Op != OpLen {
			x.mayPanic(s, in, "negative slice length", x.val(s, f, in.Len))
		}
	case *ssa.MakeMap:
		t := TT.unique(OpAlloc, "makemap", in.Type(), in.Pos())
		f.env[in] = t
	case *ssa.MakeChan:
		t := TT.unique(OpAlloc, "makechan", in.Type(), in.Pos(), x.val(s, f, in.Size))
		f.env[in] = t
		x.emit(s, "MakeChan", "", in, t, x.val(s, f, in.Size))
	case *ssa.MakeClosure:
		args := make([]*Term, len(in.Bindings))
		for i, b := range in.Bindings {
			args[i] = x.val(s, f, b)
		}
		fn := in.Fn.(*ssa.Function)
		t := TT.mk(OpClosure, fn.String(), in.Type(), args...)
		t.Fn = fn
		f.env[in] = t
	case *ssa.Range:
		b := x.val(s, f, in.X)
		f.env[in] = TT.unique(OpRange, "", in.Type(), in.Pos(), b)
		x.emit(s, "Range", "", in, f.env[in], b)
		if l := s.mlen[b]; l != nil {
			if s.first == nil {
				s.first = map[*Term]*Term{}
			}
			s.first[f.env[in]] = l
		}
	case *ssa.Next:
		it := x.val(s, f, in.Iter)
		ok := TT.unique(OpFresh, "next", types.Typ[types.Bool], in.Pos(), it)
		if l := s.first[it]; l != nil {
			ok = mkBin(token.GTR, l, TT.Int(0), types.Typ[types.Bool])
			delete(s.first, it)
		}
		tup := in.Type().(*types.Tuple)
		k := TT.unique(OpNextKey, "", tup.At(1).Type(), in.Pos(), it)
		v := TT.unique(OpNextVal, "", tup.At(2).Type(), in.Pos(), it)
		if tup.At(2).Type() == nil || tup.At(2).Type() == types.Typ[types.Invalid] {
			// value not used: take it from the map type
			if it.Op == OpRange {
				if mt, ok := it.Args[0].Typ.Underlying().(*types.Map); ok {
					v.Typ = mt.Elem()
				}
			}
		}
		k.NonNil = true
		switch v.Typ.Underlying().(type) {
		case *types.Map, *types.Slice: // tables given by users may hold nil ones
		default:
			v.NonNil = true
		}
		v.Pair, k.Pair = k, v
		f.env[in] = tupleOf(ok, k, v)
		x.emit(s, "Next", "", in, f.env[in], it, ok, k, v)
	case *ssa.MapUpdate:
		m, k, v := x.val(s, f, in.Map), x.val(s, f, in.Key), x.val(s, f, in.Value)
		if s.facts.nilness(m) != False {
			x.mayPanic(s, in, "write to nil map", m)
		}
		r := rootOf(m)
		if r.Op != OpAlloc || s.escaped[r] {
			x.escape(s, v, k)
		} else {
			s.elems[r] = append(append([]*Term(nil), s.elems[r]...), v, k)
		}
		s.mlen, s.first = nil, nil
		e := x.emit(s, "MapSet", "", in, nil, m, k, v)
		e.Flag = r.Op == OpAlloc && !s.escaped[r]
	case *ssa.Store:
		a, v := x.val(s, f, in.Addr), x.val(s, f, in.Val)
		if x.deref(s, a, in) {
			return nil
		}
		x.store(s, a, v, pointee(in.Addr.Type()), in)
	case *ssa.Send:
		ch, v := x.val(s, f, in.Chan), x.val(s, f, in.X)
		x.escape(s, v)
		x.havoc(s)
		e := x.emit(s, "Send", "", in, nil, ch, v)
		e.Flag = true // blocking
	case *ssa.Select:
		return x.doSelect(s, f, in)
	case *ssa.Go:
		return x.doGo(s, f, in)
	case *ssa.Defer:
		d := deferRec{call: in.Call, in: in}
		d.fn, d.args = x.callArgs(s, f, &in.Call)
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.pc-- // come back for the rest
			return x.call(s, f, in, &d.call, d.fn, d.args, false)
		}
	case *ssa.Call:
		fn, args := x.callArgs(s, f, &in.Call)
		return x.call(s, f, in, &in.Call, fn, args, true)
	case *ssa.Return:
		rs := make([]*Term, len(in.Results))
		for i, r := range in.Results {
			rs[i] = x.val(s, f, r)
		}
		return x.ret(s, rs, in)
	case *ssa.Panic:
		x.mayPanic(s, in, "explicit panic", x.val(s, f, in.X))
		x.finish(s, "panic", nil)
	case *ssa.Jump:
		return x.enter(s, f, f.block.Succs[0])
	case *ssa.If:
		c := x.val(s, f, in.Cond)
		switch s.facts.eval(c) {
		case True:
			return x.enter(s, f, f.block.Succs[0])
		case False:
			return x.enter(s, f, f.block.Succs[1])
		}
		x.nForks++
		if x.forkAt != nil {
			x.forkAt[in]++
		}
		n := s.clone()
		var out []*State
		if s.facts.assume(c, true) {
			if m := x.enter(s, f, f.block.Succs[0]); m != nil {
				out = append(out, m...)
			} else {
				out = append(out, s)
			}
		}
		if n.facts.assume(c, false) {
			nf := n.top()
			if m := x.enter(n, nf, nf.block.Succs[1]); m != nil {
				out = append(out, m...)
			} else {
				out = append(out, n)
			}
		}
		return out
	default:
		panic(fmt.Sprintf("instruction %T not handled at %s", in, x.p.pos(in.Pos())))
	}
	return nil
}

func (x *Exec) index(s *State, b, i *Term, typ types.Type) *Term {
	if str, ok := b.StrVal(); ok {
		if n, ok := i.IntVal(); ok && n >= 0 && n < int64(len(str)) {
			return TT.Int(int64(str[n]))
		}
	}
	if b.Op == OpArr {
		if n, ok := i.IntVal(); ok && n >= 0 && n < int64(len(b.Args)) {
			return b.Args[n]
		}
	}
	return TT.mk(OpIndex, "", typ, b, i)
}

func (x *Exec) slice(s *State, f *Frame, in *ssa.Slice) *Term {
	b := x.val(s, f, in.X)
	lo, hi := TT.Nil(), TT.Nil()
	if in.Low != nil {
		lo = x.val(s, f, in.Low)
	}
	if in.High != nil {
		hi = x.val(s, f, in.High)
	}
	if pt := pointee(in.X.Type()); pt != nil {
		if at, ok := pt.Underlying().(*types.Array); ok {
			if b.Op == OpAlloc && !s.escaped[b] && at.Len() <= 64 && lo.IsNil() && hi.IsNil() {
				args := make([]*Term, at.Len())
				for i := range args {
					ia := TT.mk(OpIAddr, "", types.NewPointer(at.Elem()), b, TT.Int(int64(i)))
					if v := x.memGet(s, ia, at.Elem()); v != nil {
						args[i] = v
					} else {
						args[i] = zeroTerm(TT, at.Elem())
					}
				}
				return TT.mk(OpArr, "", in.Type(), args...)
			}
			return TT.mk(OpSlice, "", in.Type(), b, lo, hi)
		}
	}
	if lo.IsNil() || isZeroTerm(lo) {
		if hi.IsNil() {
			return b
		}
		lo = TT.Int(0)
	}
	// lo <= len, hi <= len, lo <= hi
	x.sliceBounds(s, in, b, lo, hi)
	if str, ok := b.StrVal(); ok {
		l, ok1 := lo.IntVal()
		h := int64(len(str))
		ok2 := true
		if !hi.IsNil() {
			h, ok2 = hi.IntVal()
		}
		if ok1 && ok2 && l <= h && h <= int64(len(str)) {
			return TT.Str(str[l:h])
		}
	}
	if b.Op == OpArr {
		l, ok1 := lo.IntVal()
		h := int64(len(b.Args))
		ok2 := true
		if !hi.IsNil() {
			h, ok2 = hi.IntVal()
		}
		if ok1 && ok2 && l <= h && h <= int64(len(b.Args)) {
			return TT.mk(OpArr, "", in.Type(), b.Args[l:h]...)
		}
	}
	return TT.mk(OpSlice, "", in.Type(), b, lo, hi)
}

func (x *Exec) mayPanic(s *State, in ssa.Instruction, what string, t *Term) {
	x.emit(s, "MayPanic", what, in, nil, t)
}

// deref tells whether the path ends here because the pointer is nil.
func (x *Exec) deref(s *State, a *Term, in ssa.Instruction) bool {
	if s.facts.nilness(a) == False {
		return false
	}
	if a.Op == OpParam || (a.Op == OpLoad && a.NonNil) {
		return false
	}
	x.mayPanic(s, in, "nil dereference", a)
	if a.IsNil() {
		x.finish(s, "panic", nil)
		return true
	}
	if s.facts.nilness(a) == Unknown {
		s.facts.nonnil[a] = 1 // it did not panic, so from here on it is not nil
	}
	return false
}

func (x *Exec) bounds(s *State, in ssa.Instruction, b, i *Term) {
	lo, hi := s.facts.rng(i)
	if bt := b.Typ; bt != nil {
		if pt := pointee(bt); pt != nil {
			bt = pt
		}
		if at, ok := bt.Underlying().(*types.Array); ok {
			if lo >= 0 && hi < at.Len() {
				return
			}
			x.mayPanic(s, in, "index out of range", i)
			return
		}
	}
	ln := mkLen(b)
	llo, _ := s.facts.rng(ln)
	if i.Op == OpBin && i.Sym == "-" && i.Args[0] == ln && lo >= 0 {
		if c, ok := i.Args[1].IntVal(); ok && c >= 1 {
			return
		}
	}
	if lo >= 0 && (hi < llo || s.facts.is(mkBin(token.LSS, i, ln, types.Typ[types.Bool]), true)) {
		return
	}
	if lo >= 0 && b.Op == OpLoad && b.Args[0].Op == OpGlobal && x.p.grows[b.Args[0]] {
		// nothing is ever taken from it: what was in range earlier still is
		same := func(l *Term) bool {
			return l.Op == OpLen && len(l.Args) == 1 && l.Args[0].Op == OpLoad && l.Args[0].Args[0] == b.Args[0]
		}
		for l, n := range s.facts.lo {
			if same(l) && hi < n {
				return
			}
		}
		for a := range s.facts.b {
			for _, l := range a.Args {
				if same(l) && s.facts.is(mkBin(token.LSS, i, l, types.Typ[types.Bool]), true) {
					return
				}
			}
		}
	}
	x.emit(s, "MayPanic", "index out of range", in, nil, b, i)
}

func (x *Exec) sliceBounds(s *State, in ssa.Instruction, b, lo, hi *Term) {
	ln := mkLen(b)
	llo, _ := s.facts.rng(ln)
	l0, l1 := s.facts.rng(lo)
	le := func(a, c *Term) bool {
		_, ah := s.facts.rng(a)
		cl, _ := s.facts.rng(c)
		return ah <= cl || a == c || s.facts.is(mkBin(token.LSS, a, c, types.Typ[types.Bool]), true) || s.facts.is(mkBin(token.LSS, c, a, types.Typ[types.Bool]), false)
	}
	ok := l0 >= 0
	if hi.IsNil() {
		ok = ok && (l1 <= llo || le(lo, ln) || s.facts.prefixLen(b, lo))
	} else {
		ok = ok && le(lo, hi) && (le(hi, ln) || s.facts.prefixLen(b, hi))
	}
	if !ok {
		x.emit(s, "MayPanic", "slice out of range", in, nil, b, lo, hi)
	}
}

func (x *Exec) typeAssert(s *State, a *Term, in *ssa.TypeAssert) *Term {
	at := in.AssertedType
	var val, ok *Term
	if !in.CommaOk && types.IsInterface(at) && a.Op != OpIface && !s.facts.isNil(a) {
		// the evaluation of a method value "v.M": fails only on nil, like calling it would
		if types.Identical(in.X.Type(), at) {
			return a
		}
	}
	if a.Op == OpIface {
		if types.IsInterface(at) {
			it := at.Underlying().(*types.Interface)
			if types.Implements(a.CTyp, it) {
				val, ok = a, TT.Bool(true)
			} else {
				val, ok = TT.Nil(), TT.Bool(false)
			}
		} else if types.Identical(a.CTyp, at) {
			val, ok = a.Args[0], TT.Bool(true)
		} else {
			val, ok = zeroTerm(TT, at), TT.Bool(false)
		}
	} else if s.facts.isNil(a) {
		val, ok = zeroTerm(TT, at), TT.Bool(false)
	} else {
		val = TT.mk(OpAssert, typKey(at), at, a)
		ok = TT.mk(OpAssertOK, typKey(at), types.Typ[types.Bool], a)
		ok.CTyp = at
		switch at.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Signature:
		default:
			val.NonNil = types.IsInterface(at)
		}
	}
	if in.CommaOk {
		return tupleOf(val, ok)
	}
	if s.facts.eval(ok) != True {
		x.mayPanic(s, in, "type assertion", a)
	}
	return val
}

// iterated: the element that an iteration over the map m is at, if k is its key and nothing can have changed since.
func (x *Exec) iterated(s *State, m, k *Term) *Term {
	if k.Op != OpNextKey || len(k.Args) == 0 || k.Args[0].Op != OpRange || k.Pair == nil {
		return nil
	}
	if o := k.Args[0].Args[0]; o != m && !(o.Op == OpLoad && m.Op == OpLoad && o.Args[0] == m.Args[0]) {
		return nil
	}
	for e := s.ev; e != nil; e = e.prev {
		switch e.ev.Kind {
		case "Next":
			if e.ev.Args[2] == k {
				return k.Pair
			}
			return nil
		case "Store":
			if m.Op == OpLoad && e.ev.Args[0] == m.Args[0] {
				return nil // another map is kept there now
			}
		case "Load", "Append", "MapGet", "MapLen", "Elem", "AtomicLoad":
		case "MapSet", "MapDel":
			if !e.ev.Flag {
				return nil
			}
		default:
			return nil
		}
	}
	return nil
}

func (x *Exec) mapGet(s *State, in ssa.Instruction, m, k *Term, mt *types.Map, comma bool) *Term {
	var v, ok *Term
	_, ptr := mt.Elem().Underlying().(*types.Pointer)
	_, ch := mt.Elem().Underlying().(*types.Chan)
	nn := ptr || ch
	if x.r.configMap(m.Typ) && rootOf(m).Op != OpAlloc {
		v = TT.mk(OpMapVal, "", mt.Elem(), m, k)
		ok = TT.mk(OpMapOK, "", types.Typ[types.Bool], v)
	} else {
		v = TT.unique(OpMapVal, "", mt.Elem(), in.Pos(), m, k)
		ok = TT.unique(OpMapOK, "", types.Typ[types.Bool], in.Pos(), v)
	}
	ok.NonNil = nn
	if s.facts.isNil(m) {
		s.facts.assume(ok, false)
	}
	if it := x.iterated(s, m, k); it != nil {
		v, ok = it, TT.Bool(true)
	}
	e := x.emit(s, "MapGet", "", in, tupleOf(v, ok), m, k)
	e.Flag = rootOf(m).Op == OpAlloc && !s.escaped[rootOf(m)]
	if comma {
		return tupleOf(v, ok)
	}
	return v
}

// boolEq compares two truth values by splitting on the first.
func (x *Exec) boolEq(s *State, in *ssa.BinOp, a, b *Term) []*State {
	not := func(t *Term) *Term {
		if v, ok := t.BoolVal(); ok {
			return TT.Bool(!v)
		}
		return TT.mk(OpUn, "!", in.Type(), t)
	}
	set := func(st *State, av bool) {
		r := b
		if av != (in.Op == token.EQL) {
			r = not(b)
		}
		st.top().env[in] = r
	}
	if v := s.facts.eval(a); v != Unknown {
		set(s, v == True)
		return nil
	}
	n := s.clone()
	s.facts.assume(a, true)
	n.facts.assume(a, false)
	set(s, true)
	set(n, false)
	x.nForks++
	return []*State{s, n}
}

// ---- control flow ----

func (x *Exec) enter(s *State, f *Frame, to *ssa.BasicBlock) []*State {
	from := f.block
	loops := x.p.loopsOf(f.fn)
	if _, isHeader := loops[to]; isHeader && to.Dominates(from) {
		// a flag that the loop carries is told apart instead of being generalised
		edge := -1
		for i, p := range to.Preds {
			if p == from {
				edge = i
			}
		}
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if !isBoolT(ph.Type()) || countPreds(to, from) > 1 {
				continue
			}
			if v := x.val(s, f, ph.Edges[edge]); v.Op != OpConst && s.facts.eval(v) == Unknown {
				x.nForks++
				n := s.clone()
				var out []*State
				if s.facts.assume(v, true) {
					out = append(out, s)
				}
				if n.facts.assume(v, false) {
					out = append(out, n)
				}
				all := []*State{}
				for _, st := range out {
					if m := x.enter(st, st.top(), to); m != nil {
						all = append(all, m...)
					} else {
						all = append(all, st)
					}
				}
				return all
			}
		}
	}
	if rec := f.loops[from]; rec != nil && rec.last && loops[from][to] {
		x.finish(s, "seen", nil) // this way on was followed before
		return nil
	}
	// leaving loops other than through their header
	for h, body := range loops {
		if body[from] && !body[to] {
			if from != h {
				e := x.emit(s, "EarlyExit", "", h.Instrs[0], nil)
				e.Flag = true
				e.Instr = h.Instrs[0]
				if len(from.Instrs) > 0 {
					e.Pos = from.Instrs[len(from.Instrs)-1].Pos()
				}
			}
			delete(f.loops, h)
		}
	}
	for f.loopTag != nil && !loops[f.loopTag.Header][to] {
		f.loopTag = f.loopTag.Up
	}
	edge := -1
	for i, p := range to.Preds {
		if p == from {
			edge = i
			// duplicated edges (both branches to the same block) carry equal phis unless distinct
			break
		}
	}
	if n := countPreds(to, from); n > 1 {
		// both successors of an If: pick by position
		edge = x.edgeIndex(f, from, to)
	}
	var phis []*ssa.Phi
	vals := map[*ssa.Phi]*Term{}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals[ph] = x.val(s, f, ph.Edges[edge])
	}
	var extra []*State
	_, isHeader := loops[to]
	if isHeader {
		back := to.Dominates(from)
		if !back {
			rec := &loopRec{phi: vals, mem: copyMem(s.mem), locks: len(s.locks), gen: map[*ssa.Phi]bool{}, genMem: map[*Term]bool{}, arrivals: 1}
			f.loops[to] = rec
			f.loopTag = &LoopTag{Header: to, N: 1, Up: f.loopTag, Out: s.outerLoop()}
		} else {
			rec := f.loops[to]
			rec.arrivals++
			if len(s.locks) != rec.locks {
				x.emit(s, "LoopLocks", "", to.Instrs[0], nil)
				x.finish(s, "loop", nil)
				return nil
			}
			changed, phiChanged, few := false, false, false
			var cells []int
			newVals := map[*ssa.Phi]*Term{}
			for _, ph := range phis {
				if _, ok := vals[ph].IntVal(); ok && vals[ph] != rec.phi[ph] && x.fewTurns(s, f, to, ph) {
					changed, phiChanged, few = true, true, true // turn by turn
				}
			}
			for _, ph := range phis {
				nv, ov := vals[ph], rec.phi[ph]
				if few {
					newVals[ph] = nv
					continue
				}
				if isBoolT(ph.Type()) {
					if v := s.facts.eval(nv); v != Unknown {
						nv = TT.Bool(v == True)
						if ov.Op != OpConst && s.facts.eval(ov) == v {
							ov = nv
						}
						changed = changed || nv != ov
						phiChanged = phiChanged || nv != ov
						newVals[ph] = nv
						continue
					}
				}
				if nv == ov {
					newVals[ph] = ov
					continue
				}
				if rec.gen[ph] && x.covers(s, ov, nv) {
					newVals[ph] = x.again(s, ov, nv) // another value of the same kind
					continue
				}
				changed, phiChanged = true, true
				newVals[ph] = x.widen(s, ph.Comment, ph.Type(), ph.Pos(), ov, nv)
				rec.gen[ph] = true
			}
			left := copyMem(s.mem)
			for a, nv := range s.mem {
				ov, ok := rec.mem[a]
				if !ok || ov == nv || few {
					continue
				}
				if nv.Typ != nil && isBoolT(nv.Typ) {
					if v := s.facts.eval(nv); v != Unknown {
						nv = TT.Bool(v == True)
						if ov.Op != OpConst && s.facts.eval(ov) == v {
							ov = nv
						}
						changed = changed || nv != ov
						phiChanged = phiChanged || nv != ov
						s.mem[a] = nv
						continue
					}
				}
				if rec.genMem[a] && x.covers(s, ov, nv) {
					s.mem[a] = x.again(s, ov, nv)
					continue
				}
				changed = true
				cells = append(cells, a.ID)
				typ := nv.Typ
				if ov.Typ != nil && typ == nil {
					typ = ov.Typ
				}
				if p := pointee(a.Typ); p != nil {
					typ = p
				}
				s.mem[a] = x.widen(s, "mem", typ, token.NoPos, ov, nv)
				rec.genMem[a] = true
			}
			back := func(s *State) {
				e := x.emit(s, "LoopBack", "", to.Instrs[0], nil)
				for _, ph := range phis {
					e.Turn = append(e.Turn, [2]*Term{rec.phi[ph], vals[ph]})
				}
				for a, nv := range left {
					if ov := rec.mem[a]; ov != nil && ov != nv {
						e.Turn = append(e.Turn, [2]*Term{ov, nv})
					}
				}
			}
			min := x.cfg.LoopMin
			if min == 0 {
				min = 2
			}
			if changed && len(cells) > 0 {
				// variables that a pass may or may not set: going on from there was
				// explored where an earlier pass set them
				sort.Ints(cells)
				key := fmt.Sprint(to.Parent().String(), to.Index, cells)
				if x.loopSeen == nil {
					x.loopSeen = map[string]bool{}
				}
				if x.loopSeen[key] && !phiChanged && rec.arrivals > min {
					changed = false
				}
				x.loopSeen[key] = true
			}
			exits := false
			if len(to.Succs) == 2 {
				exits = !loops[to][to.Succs[0]] || !loops[to][to.Succs[1]]
			}
			if x.cfg.Exits && !changed && rec.arrivals > min && exits && !rec.last {
				n := s.clone()
				back(n)
				x.finish(n, "loop", nil)
				extra = []*State{s, n}
				rec.last = true
			} else if (!changed && rec.arrivals > min) || rec.arrivals > 6 && !few {
				back(s)
				x.finish(s, "loop", nil)
				return nil
			}
			if !changed && rec.arrivals == 2 && min == 1 {
				back(s)
				x.finish(s, "loop", nil)
				return nil
			}
			n := 2
			var up *LoopTag
			if f.loopTag != nil && f.loopTag.Header == to {
				n = f.loopTag.N + 1
				up = f.loopTag.Up
			}
			f.loopTag = &LoopTag{Header: to, N: n, Up: up, Out: s.outerLoop()}
			vals = newVals
			rec.phi = newVals
			rec.mem = copyMem(s.mem)
		}
	}
	for ph, v := range vals {
		f.env[ph] = v
	}
	f.block = to
	f.pc = len(phis)
	return extra
}

// fewTurns tells whether the loop counts to a small number known beforehand,
// so that its turns are told apart.
func (x *Exec) fewTurns(s *State, f *Frame, head *ssa.BasicBlock, ph *ssa.Phi) bool {
	br, ok := head.Instrs[len(head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return false
	}
	if in, ok := cmp.Y.(ssa.Instruction); ok && in.Block() == head {
		return false
	}
	if cmp.X != ssa.Value(ph) {
		inc, ok := cmp.X.(*ssa.BinOp)
		if !ok || inc.Op != token.ADD || inc.X != ssa.Value(ph) {
			return false
		}
	}
	if _, ok := cmp.Y.(*ssa.Const); !ok {
		if _, ok := f.env[cmp.Y]; !ok {
			return false
		}
	}
	n, ok := x.val(s, f, cmp.Y).IntVal()
	return ok && n <= 8
}

func countPreds(to, from *ssa.BasicBlock) int {
	n := 0
	for _, p := range to.Preds {
		if p == from {
			n++
		}
	}
	return n
}

func (x *Exec) edgeIndex(f *Frame, from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return 0
}

func copyMem(m map[*Term]*Term) map[*Term]*Term {
	n := make(map[*Term]*Term, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (x *Exec) widen(s *State, name string, typ types.Type, pos token.Pos, ov, nv *Term) *Term {
	if name == "" {
		name = "loop"
	}
	t := TT.unique(OpPhi, name, typ, pos, ov, nv)
	if (typ == nil || !isInteger(typ) && !isString(typ)) && s.facts.isNonNil(ov) && s.facts.isNonNil(nv) {
		t.NonNil = true
	}
	if typ != nil && isInteger(typ) {
		l0, _ := s.facts.rng(ov)
		l1, _ := s.facts.rng(nv)
		if l0 > -1<<62 && l1 >= l0 {
			s.facts.lo[t] = l0
			t.WLo = &l0
		}
		_, h0 := s.facts.rng(ov)
		_, h1 := s.facts.rng(nv)
		if h0 < 1<<62 && h1 <= h0 {
			s.facts.hi[t] = h0
			t.WHi = &h0
		}
	}
	return t
}

// again: a value with what is known of the generalised ov, but not the same one.
func (x *Exec) again(s *State, ov, nv *Term) *Term {
	t := TT.unique(OpPhi, ov.Sym, ov.Typ, token.NoPos, ov, nv)
	t.NonNil = ov.NonNil
	if ov.WLo != nil {
		t.WLo, s.facts.lo[t] = ov.WLo, *ov.WLo
	}
	if ov.WHi != nil {
		t.WHi, s.facts.hi[t] = ov.WHi, *ov.WHi
	}
	return t
}

// covers: the generalised value ov includes nv.
func (x *Exec) covers(s *State, ov, nv *Term) bool {
	if ov.NonNil && !s.facts.isNonNil(nv) {
		return false
	}
	if ov.Typ != nil && isInteger(ov.Typ) {
		if ov.WLo != nil {
			if l, _ := s.facts.rng(nv); l < *ov.WLo {
				return false
			}
		}
		if ov.WHi != nil {
			if _, h := s.facts.rng(nv); h > *ov.WHi {
				return false
			}
		}
	}
	return true
}

func (x *Exec) ret(s *State, rs []*Term, in ssa.Instruction) []*State {
	f := s.top()
	if len(s.frames) == 1 {
		// what a yes or no result says is part of the path
		for _, r := range rs {
			if r.Typ != nil && types.TypeString(r.Typ.Underlying(), nil) == "bool" && s.facts.eval(r) == Unknown {
				n := s.clone()
				var out []*State
				for _, st := range []*State{s, n} {
					if st.facts.assume(r, st == s) {
						out = append(out, x.ret(st, rs, in)...)
						if st != s {
							out = append(out, st)
						}
					}
				}
				return out
			}
		}
		x.emit(s, "Return", "", in, nil, rs...)
		x.finish(s, "return", rs)
		return nil
	}
	s.frames = s.frames[:len(s.frames)-1]
	if f.goRoot {
		if len(s.locks) > 0 {
			x.emit(s, "GoLeak", "", in, nil)
		}
		s.locks = f.saved
		x.emit(s, "GoEnd", "", in, nil)
		return nil
	}
	var res *Term
	if len(rs) == 1 {
		res = rs[0]
	} else {
		res = tupleOf(rs...)
	}
	if f.after != nil {
		f.after(s, res)
		return nil
	}
	if f.discard {
		return nil
	}
	if v, ok := f.callIn.(ssa.Value); ok {
		s.top().env[v] = res
	}
	return nil
}

func (x *Exec) doSelect(s *State, f *Frame, in *ssa.Select) []*State {
	type cs struct{ i int }
	var out []*State
	n := len(in.States)
	all := make([]*Term, n)
	for i, st := range in.States {
		all[i] = x.val(s, f, st.Chan)
	}
	mk := func(i int) *State {
		ns := s.clone()
		nf := ns.top()
		x.havoc(ns)
		vals := []*Term{TT.Int(int64(i)), TT.Bool(false)}
		var rv []*Term
		for j, st := range in.States {
			if st.Dir == types.RecvOnly {
				et := st.Chan.Type().Underlying().(*types.Chan).Elem()
				if j == i {
					v := TT.unique(OpRecv, "", et, in.Pos(), all[j])
					rv = append(rv, v)
					vals[1] = TT.unique(OpRecvOK, "", types.Typ[types.Bool], in.Pos(), all[j])
				} else {
					rv = append(rv, zeroTerm(TT, et))
				}
			}
		}
		vals = append(vals, rv...)
		nf.env[in] = tupleOf(vals...)
		e := x.emit(ns, "Select", "", in, nil, all...)
		e.Flag = in.Blocking
		if i >= 0 {
			st := in.States[i]
			if st.Dir == types.RecvOnly {
				var v *Term
				for _, r := range rv {
					if r.Op == OpRecv {
						v = r
					}
				}
				x.emit(ns, "Recv", "select", in, v, all[i])
			} else {
				v := x.val(s, f, st.Send)
				x.escape(ns, v)
				e := x.emit(ns, "Send", "select", in, nil, all[i], v)
				e.Flag = in.Blocking
			}
		}
		return ns
	}
	for i := range in.States {
		if s.facts.isNil(all[i]) {
			continue // never ready
		}
		out = append(out, mk(i))
	}
	if !in.Blocking {
		out = append(out, mk(-1))
	}
	if len(out) == 0 {
		x.finish(s, "stuck", nil)
		return nil
	}
	return out
}

func (x *Exec) callArgs(s *State, f *Frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	fn := x.val(s, f, c.Value)
	for _, a := range c.Args {
		args = append(args, x.val(s, f, a))
	}
	return fn, args
}

// target resolves the callee.
func (x *Exec) target(c *ssa.CallCommon, fn *Term, args []*Term) (*ssa.Function, []*Term, []*Term) {
	if c.IsInvoke() {
		if fn.Op == OpIface {
			if m := x.p.SSA.LookupMethod(fn.CTyp, c.Method.Pkg(), c.Method.Name()); m != nil && m.Blocks != nil && x.p.isRepo(m) {
				return m, append([]*Term{fn.Args[0]}, args...), nil
			} else if m != nil && (m.String() == "(*sync.Mutex)."+m.Name() || m.String() == "(*sync.RWMutex)."+m.Name()) {
				return m, append([]*Term{fn.Args[0]}, args...), nil // a lock behind a sync.Locker
			}
		}
		return nil, args, nil
	}
	switch fn.Op {
	case OpFunc:
		return fn.Fn, args, nil
	case OpClosure:
		return fn.Fn, args, fn.Args
	}
	return nil, args, nil
}

func hasLoop(p *Prog, f *ssa.Function) bool { return len(p.loopsOf(f)) > 0 }

func (x *Exec) doGo(s *State, f *Frame, in *ssa.Go) []*State {
	fnT, args := x.callArgs(s, f, &in.Call)
	fn, a2, bind := x.target(&in.Call, fnT, args)
	x.escape(s, append(append([]*Term{fnT}, args...), bind...)...)
	name := ""
	if fn != nil {
		name = fn.String()
	} else if in.Call.IsInvoke() {
		name = in.Call.Method.FullName()
	}
	e := x.emit(s, "Go", name, in, nil, append([]*Term{fnT}, a2...)...)
	e.Fn = fn
	if fn != nil && fn.Blocks != nil && x.p.isRepo(fn) && !hasLoop(x.p, fn) && !x.r.service(fn) && !x.cfg.NoInlineGo && x.cfg.Opaque(fn) == "" && onStack(s, fn) == 0 && !x.r.readsDirectly(fn) {
		s.gorN++
		nf := x.newFrame(fn, f.ctx, in.Pos())
		nf.goRoot = true
		nf.gor = s.gorN
		nf.saved = s.locks
		s.locks = nil
		x.bind(nf, fn, a2, bind)
		s.frames = append(s.frames, nf)
		e.Flag = true
	}
	return nil
}

func (x *Exec) bind(nf *Frame, fn *ssa.Function, args, bind []*Term) {
	for i, p := range fn.Params {
		if i < len(args) {
			nf.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			nf.env[fv] = bind[i]
		}
	}
}

func onStack(s *State, fn *ssa.Function) int {
	n := 0
	for _, f := range s.frames {
		if f.fn == fn {
			n++
		}
	}
	return n
}

// call performs a call; setRes says whether the instruction receives the result.
func (x *Exec) call(s *State, f *Frame, in ssa.Instruction, c *ssa.CallCommon, fnT *Term, args []*Term, setRes bool) []*State {
	set := func(t *Term) {
		if setRes {
			if v, ok := in.(ssa.Value); ok {
				f.env[v] = t
			}
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(s, f, in, b.Name(), c, args, set)
	}
	fn, a2, bind := x.target(c, fnT, args)
	if fn != nil {
		if k := x.r.hook(x, s, fn, a2); k != "" {
			return x.opaque(s, in, k, fn, c, a2, set)
		}
		if fn.Blocks != nil && (x.p.isRepo(fn) || fn.Synthetic != "") && onStack(s, fn) < 2 && len(s.frames) < 40 {
			if x.cfg.Opaque != nil {
				if k := x.cfg.Opaque(fn); k != "" {
					return x.opaque(s, in, k, fn, c, a2, set)
				}
			}
			if f.gor != 0 && x.r.service(fn) {
				// what a goroutine does for good is analysed on its own
				x.escape(s, append(append([]*Term{fnT}, args...), bind...)...)
				e := x.emit(s, "Go", fn.String(), in, nil, append([]*Term{fnT}, a2...)...)
				e.Fn = fn
				x.havoc(s)
				set(single(x.fresh("service", fn.Signature.Results(), in), fn.Signature))
				return nil
			}
			nf := x.newFrame(fn, f.ctx, in.Pos())
			nf.callIn = in
			nf.discard = !setRes
			nf.gor = f.gor
			x.bind(nf, fn, a2, bind)
			s.frames = append(s.frames, nf)
			return nil
		}
		if fn.Blocks != nil {
			return x.opaque(s, in, "Recursive", fn, c, a2, set)
		}
		return x.external(s, f, in, fn, c, a2, set)
	}
	if c.IsInvoke() {
		return x.invoke(s, in, c, fnT, args, set)
	}
	// dynamic call of an unknown function value
	if s.facts.nilness(fnT) != False {
		x.mayPanic(s, in, "call of a nil function", fnT)
	}
	x.escape(s, args...)
	x.havoc(s)
	res := x.fresh("dyn", c.Signature().Results(), in, append([]*Term{fnT}, args...)...)
	if c.Signature().Results().Len() == 1 {
		res = res.Args[0]
	}
	e := x.emit(s, "Dyn", fieldNameOfLoad(fnT), in, res, append([]*Term{fnT}, args...)...)
	e.Typ = c.Value.Type()
	set(res)
	return nil
}

func fieldNameOfLoad(t *Term) string {
	if t.Op == OpLoad {
		return fieldName(t.Args[0])
	}
	return ""
}

func single(t *Term, sig *types.Signature) *Term {
	if sig.Results().Len() == 1 {
		return t.Args[0]
	}
	return t
}

func (x *Exec) opaque(s *State, in ssa.Instruction, kind string, fn *ssa.Function, c *ssa.CallCommon, args []*Term, set func(*Term)) []*State {
	if kind == "skip" {
		set(single(x.fresh("skipped", fn.Signature.Results(), in), fn.Signature))
		return nil
	}
	if kind == "Pred" {
		t := TT.mk(OpPure, fn.String(), fn.Signature.Results().At(0).Type(), args...)
		t.NonNil = x.r.isErrorPredicate(fn) && x.nilFalse(fn)
		set(t)
		return nil
	}
	x.escape(s, args...)
	x.havoc(s)
	res := single(x.fresh(kind, fn.Signature.Results(), in, args...), fn.Signature)
	if kind == "Decode" || kind == "Encode" {
		res = TT.mk(OpPure, kind, fn.Signature.Results().At(0).Type(), args...)
	}
	e := x.emit(s, kind, fn.String(), in, res, args...)
	e.Fn = fn
	set(res)
	return nil
}

// nilFalse: the predicate on errors answers false for nil.
func (x *Exec) nilFalse(fn *ssa.Function) bool {
	if v, ok := x.r.nilFalse[fn]; ok {
		return v
	}
	x.r.nilFalse[fn] = false // while looking
	y := &Exec{p: x.p, r: x.r, cfg: Config{Opaque: x.r.baseOpaque, Setup: func(_ *Exec, st *State, ps []*Term) {
		st.facts.assume(mkEq(ps[0], TT.Nil()), true)
	}}}
	c := y.cfg.Opaque
	y.cfg.Opaque = func(f *ssa.Function) string {
		if f == fn {
			return ""
		}
		return c(f)
	}
	y.Run(fn)
	ok := y.over == "" && len(y.paths) > 0
	for _, pt := range y.paths {
		ok = ok && pt.Outcome == "return" && len(pt.Results) == 1 && pt.Facts.is(pt.Results[0], false)
	}
	x.r.nilFalse[fn] = ok
	return ok
}

func (x *Exec) builtin(s *State, f *Frame, in ssa.Instruction, name string, c *ssa.CallCommon, args []*Term, set func(*Term)) []*State {
	var rt types.Type
	if v, ok := in.(ssa.Value); ok {
		rt = v.Type()
	}
	switch name {
	case "len":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok && !args[0].IsNil() {
			l := s.mlen[args[0]]
			if l == nil {
				l = TT.unique(OpLen, "", types.Typ[types.Int], in.Pos(), args[0])
				if s.mlen == nil {
					s.mlen = map[*Term]*Term{}
				}
				s.mlen[args[0]] = l
			}
			x.emit(s, "MapLen", "", in, nil, args[0], l)
			set(l)
			break
		}
		set(mkLen(args[0]))
	case "cap":
		if args[0].Op == OpAlloc && args[0].Sym == "makechan" {
			set(args[0].Args[0])
		} else {
			set(x.fresh("cap", types.Typ[types.Int], in, args[0]))
		}
	case "append":
		if len(args) == 1 || args[1].IsNil() {
			set(args[0])
			break
		}
		if args[0].Op == OpArr && args[1].Op == OpArr {
			set(TT.mk(OpArr, "", rt, append(append([]*Term(nil), args[0].Args...), args[1].Args...)...))
			break
		}
		t := TT.unique(OpAppend, "", rt, in.Pos(), args[0], args[1])
		x.emit(s, "Append", "", in, t, args[0], args[1])
		set(t)
	case "copy":
		n := x.fresh("copied", types.Typ[types.Int], in, args...)
		x.emit(s, "Copy", "", in, n, args...)
		b := args[0]
		for b.Op == OpSlice {
			b = b.Args[0]
		}
		if src, ok := x.elemSources(s, args[1], map[*Term]bool{}); ok {
			s.elems[b] = append(append([]*Term(nil), s.elems[b]...), src...)
		} else {
			s.elems[b] = append(append([]*Term(nil), s.elems[b]...), TT.mk(OpIndex, "copy", nil, args[1], TT.Int(0)))
		}
		set(n)
	case "delete":
		s.mlen, s.first = nil, nil
		x.emit(s, "MapDel", "", in, nil, args[0], args[1])
	case "clear":
		x.emit(s, "MapClear", "", in, nil, args[0])
	case "close":
		x.havoc(s)
		x.emit(s, "CloseChan", "", in, nil, args[0])
	case "panic":
		x.mayPanic(s, in, "explicit panic", args[0])
		x.finish(s, "panic", nil)
	case "recover":
		set(TT.Nil())
	case "ssa:wrapnilchk":
		set(args[0])
	case "print", "println":
	case "min", "max":
		t := args[0]
		for _, a := range args[1:] {
			t = TT.mk(OpPure, name, rt, t, a)
		}
		set(t)
	default:
		if rt != nil {
			set(x.fresh(name, rt, in, args...))
		}
	}
	return nil
}

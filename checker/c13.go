package main

// C13: no bytes from the remote side can crash the process.

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C13"] = checkC13 }

// remoteRoots: the code that runs because of what the remote side sent or did.
func (c *Chk) remoteRoots() []*ssa.Function {
	set := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && !set[f] && !isTestFile(c.p, f) {
			set[f] = true
			out = append(out, f)
		}
	}
	need := func(t, m string) {
		f := c.p.method(t, m)
		if f == nil {
			c.ob(false, "anchor", t+"."+m, token.NoPos, nil, "not found")
		}
		add(f)
	}
	for _, f := range c.readers() {
		add(f)
	}
	for _, f := range c.srvLoops() {
		add(f)
	}
	for _, m := range []string{"HandlePayload", "Close", "Write", "Ask", "DeserializeMessage"} {
		need("Conn", m)
	}
	need("Server", "Upgrade")
	need("Message", "Serialize")
	add(c.p.fn("DeserializeMessage"))
	add(c.p.fn("Dial"))
	for _, f := range c.p.Funcs {
		if fnPkg(f) == c.p.Root && c.r.baseOpaque(f) != "" {
			add(f)
		}
	}
	// error texts travel to the remote side
	for _, f := range c.p.Funcs {
		if f.Name() == "Error" && f.Signature.Recv() != nil && f.Signature.Params().Len() == 0 && f.Synthetic == "" {
			add(f)
		}
	}
	// the transports
	sock := c.r.Socket.Underlying().(*types.Interface)
	se := c.r.StackEx.Underlying().(*types.Interface)
	for _, f := range c.p.Funcs {
		if fnPkg(f) == c.p.Root || f.Synthetic != "" {
			continue
		}
		if rv := f.Signature.Recv(); rv != nil && f.Parent() == nil {
			if types.Implements(rv.Type(), sock) {
				add(f)
				continue
			}
			// backends: what the server calls for its connections
			if types.Implements(rv.Type(), se) && f.Object().Exported() {
				add(f)
				continue
			}
		}
	}
	for _, f := range c.p.entryPoints() {
		if fnPkg(f) == c.p.Root || set[f] || isTestFile(c.p, f) {
			continue
		}
		if f.Parent() != nil {
			top := f.Parent()
			for top.Parent() != nil {
				top = top.Parent()
			}
			if c.ofConstructor(top, 0) && !returnsSocket(c, f) {
				continue // options of a constructor
			}
			add(f)
			continue
		}
		if rv := f.Signature.Recv(); rv != nil && (f.Object() == nil || !f.Object().Exported()) {
			add(f) // goroutines of the backends and of the transports
		} else if rv != nil && !types.Implements(rv.Type(), se) {
			add(f) // helper types of the transports
		}
	}
	return out
}

// ofConstructor: an exported function, or a helper of such functions only.
func (c *Chk) ofConstructor(f *ssa.Function, depth int) bool {
	if f.Signature.Recv() != nil || f.Object() == nil || depth > 4 {
		return false
	}
	if f.Object().Exported() {
		return true
	}
	u := c.r.usesOf(f)
	if u.gos+u.other > 0 || len(u.callers) == 0 {
		return false
	}
	for _, g := range u.callers {
		if !c.ofConstructor(g, depth+1) {
			return false
		}
	}
	return true
}

func returnsSocket(c *Chk, f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() > 0 && types.Identical(rs.At(0).Type(), c.r.Socket)
}

// filled: the slice was made with one place per entry of a map and a loop over that map, in the same
// function, puts one non-nil entry into each place; gives the loop's header.
func (c *Chk) filled(mk *ssa.MakeSlice) (*ssa.BasicBlock, ssa.Value) {
	ln, ok := mk.Len.(*ssa.Call)
	if !ok {
		return nil, nil
	}
	bi, ok := ln.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "len" {
		return nil, nil
	}
	m := ln.Call.Args[0]
	if _, ok := m.Type().Underlying().(*types.Map); !ok {
		return nil, nil
	}
	type loop struct {
		h    *ssa.BasicBlock
		body map[*ssa.BasicBlock]bool
	}
	var loops []loop
	in := map[*ssa.Function]bool{}
	var look func(f *ssa.Function)
	look = func(f *ssa.Function) { // the function, and what it hands the rest of its work to
		if in[f] {
			return
		}
		in[f] = true
		for h, body := range c.p.loopsOf(f) {
			loops = append(loops, loop{h, body})
		}
		for _, g := range c.p.staticRefs(f) {
			if c.onlyCall(g) != nil {
				look(g)
			}
		}
	}
	look(mk.Parent())
	for _, l := range loops {
		h, body := l.h, l.body
		// the header asks for the next entry of the same map
		var nx *ssa.Next
		for _, in := range h.Instrs {
			if n, ok := in.(*ssa.Next); ok {
				nx = n
			}
		}
		if nx == nil {
			continue
		}
		rg, ok := nx.Iter.(*ssa.Range)
		if !ok || !c.sameLoad(rg.X, m) {
			continue
		}
		// no way out but the header
		early := false
		for b := range body {
			if b == h {
				continue
			}
			for _, s := range b.Succs {
				early = early || !body[s]
			}
		}
		if early {
			continue
		}
		for b := range body {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok || c.standsFor(ia.X) != ssa.Value(mk) || !c.counts(ia.Index, h, body) {
					continue
				}
				// every turn stores
				every := true
				for _, p := range h.Preds {
					if body[p] && !b.Dominates(p) {
						every = false
					}
				}
				entry := false
				switch v := st.Val.(type) {
				case *ssa.Extract:
					entry = v.Tuple == ssa.Value(nx) && v.Index == 2
				case *ssa.Lookup: // by the key of this turn
					k, ok := v.Index.(*ssa.Extract)
					entry = ok && !v.CommaOk && c.sameLoad(v.X, m) && k.Tuple == ssa.Value(nx) && k.Index == 1
				}
				if every && entry {
					return h, m
				}
			}
		}
	}
	return nil, nil
}

// sameLoad: the same value, or two reads of the same field of the same object.
func (c *Chk) sameLoad(a, b ssa.Value) bool {
	a, b = c.standsFor(a), c.standsFor(b)
	if a == b {
		return true
	}
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || ua.Op != ub.Op {
		return false
	}
	fa, ok1 := ua.X.(*ssa.FieldAddr)
	fb, ok2 := ub.X.(*ssa.FieldAddr)
	return ok1 && ok2 && fa.Field == fb.Field && (fa.X == fb.X || c.sameLoad(fa.X, fb.X))
}

// counts: the value is 0 at the first turn of the loop and grows by one with every turn.
func (c *Chk) counts(v ssa.Value, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	ph, ok := v.(*ssa.Phi)
	if !ok || ph.Block() != h {
		return false
	}
	for i, e := range ph.Edges {
		if body[h.Preds[i]] {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) || !isConstInt(b.Y, 1) {
				return false
			}
		} else if !isConstInt(c.standsFor(e), 0) {
			return false
		}
	}
	return true
}

// onlyCall: the one call of a helper that is used nowhere else.
func (c *Chk) onlyCall(f *ssa.Function) *ssa.Call {
	u := c.r.usesOf(f)
	if f.Parent() != nil || f.Object() == nil || f.Object().Exported() || !c.p.isRepo(f) || u.gos+u.other > 0 || len(u.callers) != 1 {
		return nil
	}
	for _, b := range u.callers[0].Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() == f {
				return call
			}
		}
	}
	return nil
}

// standsFor: the value that a parameter of such a helper stands for.
func (c *Chk) standsFor(v ssa.Value) ssa.Value {
	for d := 0; d < 6; d++ {
		p, ok := v.(*ssa.Parameter)
		if !ok {
			return v
		}
		call := c.onlyCall(p.Parent())
		if call == nil {
			return v
		}
		for i, q := range p.Parent().Params {
			if q == p {
				v = call.Call.Args[i]
			}
		}
	}
	return v
}

func isConstInt(v ssa.Value, n int64) bool {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return false
	}
	i, ok := constant.Int64Val(k.Value)
	return ok && i == n
}

// snapshot: the slice is a complete copy of a map's values, taken in one hold of a lock.
func (c *Chk) snapshot(pt *Path, sl *Term, upto int) bool {
	if sl == nil || sl.Op != OpAlloc || sl.Sym != "makeslice" || len(sl.Args) == 0 || sl.Args[0].Op != OpLen {
		return false
	}
	m := sl.Args[0].Args[0]
	var mk *ssa.MakeSlice
	from, to := -1, -1
	for _, e := range pt.Events {
		if e.Kind == "MapLen" && e.Args[0] == m {
			if from < 0 {
				from = e.Seq
			}
			// the make that used this length
			for _, b := range e.Instr.Parent().Blocks {
				for _, in := range b.Instrs {
					if k, ok := in.(*ssa.MakeSlice); ok && k.Len == e.Instr.(ssa.Value) {
						mk = k
					}
				}
			}
		}
		if e.Kind == "Next" && e.Args[0].Op == OpRange && e.Args[0].Args[0] == m && e.Seq <= upto {
			to = e.Seq
		}
	}
	if mk == nil || from < 0 || to < from {
		return false
	}
	if h, _ := c.filled(mk); h == nil {
		return false
	}
	// one lock held from the length to the last entry
	var common map[*Term]bool
	for _, e := range pt.Events {
		if e.Seq < from || e.Seq > to {
			continue
		}
		n := map[*Term]bool{}
		for _, l := range e.Locks {
			if common == nil || common[l.Addr] {
				n[l.Addr] = true
			}
		}
		if e.Kind == "Unlock" {
			delete(n, e.Args[0])
		}
		common = n
	}
	return len(common) > 0
}

// given: the value comes from the application or from another library: arguments of the API, results of
// its callbacks and of library calls (which are valid unless they come with an error), values inside interfaces.
func (c *Chk) given(pt *Path, t *Term) bool {
	switch t.Op {
	case OpParam:
		return true
	case OpAssert:
		return c.given(pt, t.Args[0]) || t.Args[0].Op == OpFresh
	case OpPure:
		return true
	case OpFresh:
		for _, e := range pt.Events {
			if e.Res == nil || (e.Kind != "Invoke" && e.Kind != "Dyn" && e.Kind != "Call") {
				continue
			}
			if e.Res == t {
				return true
			}
			if e.Res.Op == OpTuple {
				for _, r := range e.Res.Args {
					if r != t {
						continue
					}
					last := e.Res.Args[len(e.Res.Args)-1]
					if types.Identical(last.Typ, errType) && last != t {
						return pt.Facts.isNil(last)
					}
					return true
				}
			}
		}
		return false
	case OpField:
		// a part of a value that is always built with it
		n := namedOf(t.Args[0].Typ)
		return t.Args[0].Op == OpParam && n != nil && !n.Obj().Exported() && c.r.nonNilField(t.FieldVar)
	case OpLoad, OpIndex:
		// an element of a list that the application registered
		if b := elemOf(t); b != nil && types.IsInterface(t.Typ) {
			for b.Op == OpSlice {
				b = b.Args[0]
			}
			return b.Op == OpLoad && b.Args[0].Op == OpGlobal
		}
	case OpMapVal:
		// a registered callback, where one is registered
		_, isFn := t.Typ.Underlying().(*types.Signature)
		if !isFn {
			return false
		}
		for _, e := range pt.Events {
			if e.Kind == "MapGet" && e.Res.Args[0] == t && present(pt, e) {
				return true
			}
		}
	}
	return false
}

// elemOf is the list that a value was taken out of.
func elemOf(t *Term) *Term {
	if t.Op == OpIndex {
		return t.Args[0]
	}
	if t.Op == OpLoad && t.Args[0].Op == OpIAddr {
		return t.Args[0].Args[0]
	}
	return nil
}

func checkC13(c *Chk) {
	c.rule("safe", "no operation on the path can panic: indexes and slices are in range, maps written to exist, pointers, interfaces and functions used are not nil, assertions hold, and nothing panics on purpose")
	c.rule("non-nil", "what is kept in a table of pointers or sent over a channel of pointers is never nil")
	c.rule("closed-once", "a channel is closed at most once: it was made on this path, or the path is the first to claim its owner, or its owner is a gate under its own lock")
	c.rule("no-clash", "no message that is encoded, answered or dispatched because of the remote side carries both a token and an excluded sender, which cannot be encoded together; a broadcast message carries no token (C14)")
	c.rule("open", "nothing sends on a channel that the library closes")
	closes := map[*types.Var]token.Pos{}
	for _, root := range c.remoteRoots() {
		name := rel(c, root)
		cfg := c.openConfig(root)
		for _, pt := range c.explore(root, "safe:"+name, cfg) {
			c.ob(true, "safe", name, root.Pos(), pt, "")
			for _, e := range pt.Events {
				switch e.Kind {
				case "MayPanic":
					c.ob(c.harmless(root, pt, e), "safe", c.fnName(e)+" ("+e.Name+")", e.Pos, pt, "%s: %s, from %s", e.Name, e.Args[0].String(), name)
				case "Encode":
					m := e.Args[0]
					given := fnPkg(root) != c.p.Root || c.r.baseOpaque(root) == "Encode"
					c.ob(given || pt.Facts.isEmpty(mf(m, c.r.mWait)) || pt.Facts.isEmpty(mf(m, c.r.mFromEx)), "no-clash", c.fnName(e), e.Pos, pt, "a message with both a token and an excluded sender is encoded, from %s", name)
				case "Invoke":
					if e.Name == "neffos.StackExchange.NotifyAsk" {
						c.ob(pt.Facts.isEmpty(mf(e.Args[1], c.r.mFromEx)), "no-clash", c.fnName(e)+" (backend)", e.Pos, pt, "a message with both a token and an excluded sender goes to the backend")
					}
				case "Fire":
					for _, a := range e.Args {
						if a.Typ != nil && types.Identical(a.Typ, c.r.Message) {
							ex := mf(a, c.r.mFromEx)
							wire := ex != nil && ex.any(func(t *Term) bool { return t.Op == OpPure && t.Sym == "Decode" })
							c.ob(!wire || pt.Facts.isEmpty(ex), "no-clash", c.fnName(e)+" (event)", e.Pos, pt, "an incoming message keeps the excluded sender that the remote side wrote, from %s", name)
						}
					}
				case "CloseChan":
					c.ob(c.closedOnce(pt, e), "closed-once", c.fnName(e), e.Pos, pt, "the channel %s may be closed twice, from %s", e.Args[0].String(), name)
				}
			}
		}
	}
	// what the nil-freedom of tables and channels rests on
	tabs := c.tables()
	fs := map[*ssa.Function]bool{}
	for _, f := range c.p.Funcs {
		if isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Send:
					if isPtr(in.X.Type()) {
						fs[f] = true
					}
				case *ssa.Select:
					for _, s := range in.States {
						if s.Dir == types.SendOnly && isPtr(s.Send.Type()) {
							fs[f] = true
						}
					}
				case *ssa.MapUpdate:
					if isPtr(in.Value.Type()) || isChan(in.Value.Type()) {
						fs[f] = true
					}
				case ssa.CallInstruction:
					if bi, ok := in.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						if fv := ssaChanField(in.Common().Args[0]); fv != nil {
							closes[fv] = in.Pos()
						}
					}
				}
			}
		}
	}
	for _, root := range c.entriesOf(fs) {
		for _, pt := range c.explore(root, "safe:"+rel(c, root), c.openConfig(root)) {
			for _, e := range pt.Events {
				var v *Term
				switch e.Kind {
				case "Send":
					v = e.Args[1]
				case "MapSet":
					if fv, _ := cellField(e.Args[0]); fv == nil || tabs[fv] == nil {
						continue
					}
					v = e.Args[2]
				default:
					continue
				}
				if v == nil || v.Typ == nil || !(isPtr(v.Typ) || isChan(v.Typ)) {
					continue
				}
				ok := pt.Facts.isNonNil(v) || v.Op == OpParam || v.Op == OpLoad && v.Args[0].Op == OpParam || c.received(v) || c.given(pt, v)
				c.ob(ok, "non-nil", c.fnName(e), e.Pos, pt, "%s may be nil, from %s", v.String(), rel(c, root))
			}
		}
	}
	// sends on closed channels
	for _, f := range c.p.Funcs {
		if isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var chs []ssa.Value
				switch in := in.(type) {
				case *ssa.Send:
					chs = []ssa.Value{in.Chan}
				case *ssa.Select:
					for _, s := range in.States {
						if s.Dir == types.SendOnly {
							chs = append(chs, s.Chan)
						}
					}
				}
				for _, ch := range chs {
					bad := false
					if fv := ssaChanField(ch); fv != nil {
						_, bad = closes[fv]
					}
					if mk, ok := ch.(*ssa.MakeChan); ok {
						for _, r := range *mk.Referrers() {
							if ci, ok := r.(ssa.CallInstruction); ok {
								if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
									bad = true
								}
							}
						}
					}
					c.ob(!bad, "open", rel(c, f), in.Pos(), nil, "it sends on a channel that is closed elsewhere")
				}
			}
		}
	}
	c.need("safe", 20)
	c.need("non-nil", 4)
	c.need("closed-once", 2)
	c.need("no-clash", 5)
	c.need("open", 4)
	c.assume = append(c.assume, "arguments of the API, registered handlers and errors, and what sockets, upgraders and dialers return without an error are valid (not nil)",
		"panics raised inside user callbacks and inside other libraries are theirs")
}

// ssaChanField is the field a channel value was read from.
func ssaChanField(v ssa.Value) *types.Var {
	switch v := v.(type) {
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok {
			return fieldVarOf(fa)
		}
	case *ssa.Field:
		if st, ok := v.X.Type().Underlying().(*types.Struct); ok {
			return st.Field(v.Field)
		}
	}
	return nil
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func (c *Chk) received(t *Term) bool {
	for t != nil {
		if t.Op == OpRecv {
			return true
		}
		if t.Op != OpField || len(t.Args) == 0 {
			return false
		}
		t = t.Args[0]
	}
	return false
}

func (c *Chk) harmless(root *ssa.Function, pt *Path, e *Event) bool {
	t := e.Args[0]
	switch e.Name {
	case "index out of range":
		if len(e.Args) > 1 && c.snapshot(pt, t, e.Seq) {
			// one place per turn of the loop that fills it
			ia, ok := e.Instr.(*ssa.IndexAddr)
			if !ok {
				return false
			}
			mk, ok := c.standsFor(ia.X).(*ssa.MakeSlice)
			if !ok {
				return false
			}
			h, _ := c.filled(mk)
			return h != nil && c.counts(ia.Index, h, c.p.loopsOf(ia.Parent())[h])
		}
		return false
	case "explicit panic":
		// a token and an excluded sender at once: see the rule no-clash
		for _, f := range root.Params {
			if types.Identical(f.Type(), c.r.Message) && c.r.baseOpaque(root) == "Encode" {
				m := TT.mk(OpParam, f.Name(), f.Type())
				return nonEmpty(pt, mf(m, c.r.mWait)) && nonEmpty(pt, mf(m, c.r.mFromEx))
			}
		}
		return false
	case "nil dereference", "method call on a nil interface", "call of a nil function":
		if b := elemOf(t); b != nil && c.snapshot(pt, b, e.Seq) {
			return true
		}
		if c.received(t) {
			return true // see the rule non-nil; functions come from the API
		}
		return c.given(pt, t)
	}
	return false
}

func (c *Chk) closedOnce(pt *Path, e *Event) bool {
	ch := e.Args[0]
	if ch.Op == OpAlloc {
		for _, g := range pt.Events {
			if g.Kind == "CloseChan" && g.Seq < e.Seq && g.Args[0] == ch {
				return false
			}
		}
		return true
	}
	fv, owner := cellField(ch)
	if fv == nil && c.received(ch) {
		for _, g := range pt.Events {
			if g.Kind == "CloseChan" && g.Seq < e.Seq && g.Args[0] == ch {
				return false
			}
		}
		return c.madeForOne(ch)
	}
	if fv == nil {
		return false
	}
	for _, g := range pt.Events {
		if g.Kind == "CloseChan" && g.Seq < e.Seq && g.Args[0] == ch {
			return false
		}
	}
	if f := firstClaim(pt, owner); f != nil && f.Seq < e.Seq {
		return true
	}
	// gates are decided by C22; a table entry that is removed in the same step is gone for everyone else
	n := namedOf(owner.Typ)
	if n == c.r.Gate && ownLock(e, owner, true) {
		return true
	}
	for _, g := range pt.Events {
		if g.Kind == "MapDel" {
			for _, k := range pt.Events {
				if k.Kind == "MapGet" && k.Args[0] == g.Args[0] && k.Args[1] == g.Args[1] && k.Res != nil && k.Res.Op == OpTuple && k.Res.Args[0] == owner {
					return true
				}
			}
		}
	}
	return false
}

// madeForOne: the received channel was made for the one value that carried it, whoever sent that.
func (c *Chk) madeForOne(ch *Term) bool {
	var fields []*types.Var
	t := ch
	for t.Op == OpField {
		fields = append([]*types.Var{t.FieldVar}, fields...)
		t = t.Args[0]
	}
	if t.Op != OpRecv {
		return false
	}
	over, _ := cellField(t.Args[0])
	if over == nil {
		return false
	}
	fs := map[*ssa.Function]bool{}
	for _, f := range c.p.Funcs {
		if isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Send:
					fs[f] = true
				case *ssa.Select:
					for _, s := range in.States {
						if s.Dir == types.SendOnly {
							fs[f] = true
						}
					}
				}
			}
		}
	}
	n := 0
	for _, root := range c.entriesOf(fs) {
		for _, pt := range c.explore(root, "safe:"+rel(c, root), c.openConfig(root)) {
			seen := map[*Term]bool{}
			for _, e := range pt.Events {
				if e.Kind != "Send" {
					continue
				}
				if fv, _ := cellField(e.Args[0]); fv != over {
					continue
				}
				v := e.Args[1]
				for _, f := range fields {
					v = mf(v, f)
				}
				n++
				if v == nil || v.IsNil() {
					continue
				}
				if v.Op != OpAlloc || v.Sym != "makechan" || seen[v] {
					return false
				}
				seen[v] = true
				for _, g := range pt.Events {
					if (g.Kind == "CloseChan" || g.Kind == "Store" || g.Kind == "MapSet") && len(g.Args) > 0 {
						if g.Kind == "CloseChan" && g.Args[0] == v || g.Kind == "MapSet" && g.Args[2] == v {
							return false
						}
						if g.Kind == "Store" && g.Args[1] == v {
							if _, o := cellField(g.Args[0]); o == nil || o.Op != OpAlloc {
								return false
							}
						}
					}
				}
			}
		}
	}
	return n > 0
}

func nonEmpty(pt *Path, x *Term) bool {
	if x == nil {
		return false
	}
	lo, _ := pt.Facts.rng(lenOf(x))
	return lo > 0 || pt.Facts.equal(x, TT.Str("")) == False
}

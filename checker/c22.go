package main

// C22: the readiness latch and the connect gates.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C22"] = checkC22 }

// methodsWhere: methods of a type with the signature.
func (c *Chk) methodsWhere(n *types.Named, fits func(*types.Func) bool) []*ssa.Function {
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		if fits(n.Method(i)) {
			if f := c.p.SSA.FuncValue(n.Method(i)); f != nil && f.Blocks != nil && c.r.usedOutside(f) {
				out = append(out, f)
			}
		}
	}
	return out
}

func selfOf(f *ssa.Function) *Term { return TT.mk(OpParam, f.Params[0].Name(), f.Params[0].Type()) }

// ownLock: a lock of the object is held (exclusively if excl).
func ownLock(e *Event, obj *Term, excl bool) bool {
	for _, l := range e.Locks {
		if v, o := cellField(l.Addr); v != nil && o == obj && !(excl && l.Read) {
			return true
		}
	}
	return false
}

// held: between the two events some lock of the object was held all the time.
func heldThrough(pt *Path, obj *Term, from, to int) bool {
	var common []Lock
	first := true
	for _, e := range pt.Events {
		if e.Seq < from || e.Seq > to {
			continue
		}
		if first {
			for _, l := range e.Locks {
				if _, o := cellField(l.Addr); o == obj && !l.Read {
					common = append(common, l)
				}
			}
			first = false
			continue
		}
		var n []Lock
		for _, l := range common {
			for _, m := range e.Locks {
				if m == l && !(e.Kind == "Unlock" && e.Args[0] == l.Addr && e.Seq < to) {
					n = append(n, l)
					break
				}
			}
		}
		common = n
	}
	return len(common) > 0
}

// firstClaim: the point from which the path knows that it is the first to come here.
func firstClaim(pt *Path, self *Term) *Event {
	for _, e := range pt.Events {
		switch e.Kind {
		case "OnceFirst":
			if _, o := cellField(e.Args[0]); o == self {
				return e
			}
		case "CAS":
			if _, o := cellField(e.Args[0]); o == self && isZero(e.Args[1]) && isOne(e.Args[2]) && pt.Facts.is(e.Res, true) {
				return e
			}
		case "Load":
			if v, o := cellField(e.Args[0]); v != nil && o == self && e.Args[0].Op == OpFAddr && ownLock(e, self, true) && e.Res != nil {
				t := e.Res.Typ
				unset := t != nil && (isInteger(t) || types.Identical(t.Underlying(), types.Typ[types.Bool])) && zeroRead(pt, e.Res)
				if !unset {
					continue
				}
				for _, s := range pt.Events {
					if s.Kind == "Store" && s.Seq > e.Seq && s.Args[0] == e.Args[0] && isOne(s.Args[1]) && heldThrough(pt, self, e.Seq, s.Seq) {
						return e
					}
				}
			}
		}
	}
	return nil
}

func structField(n *types.Named, fits func(types.Type) bool) []*types.Var {
	var out []*types.Var
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if fits(st.Field(i).Type()) {
			out = append(out, st.Field(i))
		}
	}
	return out
}

func isChan(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }

// fieldUses lists the functions outside tests that take the address of a field (or read it).
func (c *Chk) fieldUses(fv *types.Var, visit func(f *ssa.Function, in ssa.Instruction, write bool)) {
	for _, f := range c.p.Funcs {
		if isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					if fieldVarOf(in) != fv || in.Referrers() == nil {
						continue
					}
					for _, ref := range *in.Referrers() {
						switch ref := ref.(type) {
						case *ssa.Store:
							visit(f, ref, ref.Addr == in)
						case *ssa.DebugRef:
						default:
							visit(f, ref, false)
						}
					}
				case *ssa.Field:
					st := in.X.Type().Underlying().(*types.Struct)
					if st.Field(in.Field) == fv {
						visit(f, in, false)
					}
				}
			}
		}
	}
}

// fresh: the field belongs to an object that this function is building.
func buildsHere(in ssa.Instruction) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	_, ok = fa.X.(*ssa.Alloc)
	return ok
}

func checkC22(c *Chk) {
	c.rule("verdict", "the first verdict, and only that, is stored before the wake-up channel is closed (once) and before the ready flag is raised; nothing else stores or closes them")
	c.rule("await", "a waiter returns the stored verdict, read after it saw the channel closed (or the flag raised)")
	c.rule("ready", "the ready report is the flag, and the verdict is read elsewhere only after the flag was seen raised")
	c.rule("same-gate", "the gate given for a name is the one in the table, entered under the table's exclusive lock after the name was found missing in the same critical section; nothing is ever removed or replaced")
	c.rule("gate-start", "Start makes a new channel exactly when nothing is running, and counts up, under the gate's lock")
	c.rule("gate-done", "Done counts down what runs and closes the channel exactly when nothing is left, under the gate's lock")
	c.rule("gate-wait", "Wait receives from the channel current at its call, without holding the lock, unless nothing ever ran")
	c.rule("attempt", "every attempt to connect starts the gate of its namespace before the callback or the request, and ends it exactly once on every way out, after the membership is entered")
	c.rule("held-back", "a join, leave or ordinary message waits on the gate of its namespace before the membership is looked up; replies and connect requests never wait")
	c.latch()
	c.gates()
	c.gateUse()
	c.need("verdict", 4)
	c.need("await", 1)
	c.need("same-gate", 2)
	c.need("attempt", 2)
	c.need("held-back", 2)
}

func (c *Chk) latch() {
	r := c.r
	gives := c.methodsWhere(r.Latch, func(f *types.Func) bool { return sigIs(f, []types.Type{errType}, nil) })
	waits := c.methodsWhere(r.Latch, func(f *types.Func) bool { return sigIs(f, nil, []types.Type{errType}) })
	readys := c.methodsWhere(r.Latch, func(f *types.Func) bool { return sigIs(f, nil, []types.Type{types.Typ[types.Bool]}) })
	errs := structField(r.Latch, same(errType))
	if len(errs) != 1 || len(gives) != 1 || len(waits) != 1 {
		c.ob(false, "anchor", "readiness latch", token.NoPos, nil, "the latch has no single verdict field, giver and waiter")
		return
	}
	ef, give, wait := errs[0], gives[0], waits[0]
	open := func(fn *ssa.Function) string {
		if fn.Signature.Recv() != nil && namedOf(fn.Signature.Recv().Type()) == r.Latch {
			return ""
		}
		return r.baseOpaque(fn)
	}
	self := selfOf(give)
	verdict := TT.mk(OpParam, give.Params[1].Name(), give.Params[1].Type())
	var ch, flag *types.Var
	firsts := 0
	for _, pt := range c.explore(give, "latch", Config{Opaque: open}) {
		name := rel(c, give)
		w := firstClaim(pt, self)
		stored, closes, raised := 0, 0, 0
		for _, e := range pt.Events {
			switch e.Kind {
			case "Store":
				v, o := cellField(e.Args[0])
				if e.Flag || o != self {
					continue
				}
				if v == ef {
					c.ob(stored == 0 && e.Args[1] == verdict, "verdict", name+" (value)", e.Pos, pt, "what is stored is not the verdict given: %s", e.Args[1])
					stored = e.Seq
				}
				c.ob(w != nil && w.Seq < e.Seq, "verdict", name+" (first only)", e.Pos, pt, "%s is changed by a later verdict", e.Name)
			case "AtomicStore", "CAS", "AtomicAdd", "AtomicSwap":
				v, o := cellField(e.Args[0])
				if o != self || e == w {
					if e == w && v != nil && !isMutexLike(v.Type()) {
						flag = v
						raised = e.Seq
					}
					continue
				}
				c.ob(w != nil && w.Seq < e.Seq, "verdict", name+" (first only)", e.Pos, pt, "the flag is changed by a later verdict")
				if e.Kind == "AtomicStore" && isOne(e.Args[1]) {
					flag, raised = v, e.Seq
				}
			case "CloseChan":
				v, o := cellField(e.Args[0])
				c.ob(o == self && w != nil && w.Seq < e.Seq && closes == 0, "verdict", name+" (close once)", e.Pos, pt, "the wake-up channel can be closed twice")
				c.ob(stored > 0 && stored < e.Seq, "verdict", name+" (stored before wake-up)", e.Pos, pt, "waiters are woken before the verdict is stored")
				ch = v
				closes++
			case "Send", "Select", "Recv":
				c.ob(false, "verdict", name+" (lost wake-up)", e.Pos, pt, "giving the verdict depends on somebody being at the channel")
			}
		}
		if !complete(pt) {
			c.ob(pt.Outcome != "panic", "verdict", name+" (panic)", give.Pos(), pt, "it can panic")
			continue
		}
		if w != nil {
			firsts++
			c.ob(stored > 0 && closes == 1, "verdict", name+" (wakes)", give.Pos(), pt, "the first verdict is not stored and announced")
			_ = raised
		} else {
			c.ob(!c.firstPossible(pt, self), "verdict", name+" (first)", give.Pos(), pt, "a verdict that may be the first is ignored")
		}
	}
	c.ob(firsts > 0, "verdict", rel(c, give)+" (first)", give.Pos(), nil, "no call is recognised as the first")
	if ch == nil {
		return
	}
	c.ob(r.nonnil[ch] && c.p.stable[ch], "verdict", "wake-up channel", ch.Pos(), nil, "the channel is not made once at construction")
	c.ob(c.p.stable[r.readiness] && r.nonnil[r.readiness], "verdict", "latch of a connection", r.readiness.Pos(), nil, "the latch is replaced after construction, or missing")
	// is the flag raised after the verdict is stored?
	flagAfter := flag != nil
	for _, pt := range c.explore(give, "latch", Config{Opaque: open}) {
		st := 0
		for _, e := range pt.Events {
			if e.Kind == "Store" && isAddrOf(e.Args[0], self, ef) {
				st = e.Seq
			}
			if e.Kind == "AtomicStore" || e.Kind == "CAS" {
				if v, o := cellField(e.Args[0]); v == flag && o == self && flag != nil {
					flagAfter = flagAfter && st > 0 || (e.Kind == "CAS" && !pt.Facts.is(e.Res, true) && flagAfter)
				}
			}
		}
	}
	ws := selfOf(wait)
	for _, pt := range c.explore(wait, "latch", Config{Opaque: open}) {
		if !complete(pt) || len(pt.Results) != 1 {
			c.ob(pt.Outcome != "panic", "await", rel(c, wait)+" (panic)", wait.Pos(), pt, "it can panic")
			continue
		}
		seen, ok := 0, false
		for _, e := range pt.Events {
			switch e.Kind {
			case "Recv":
				if isFieldOf(e.Args[0], ws, ch) && seen == 0 {
					seen = e.Seq
				}
			case "AtomicLoad":
				if v, o := cellField(e.Args[0]); v == flag && o == ws && flagAfter && nonZeroRead(pt, e.Res) && seen == 0 {
					seen = e.Seq
				}
			case "Load":
				if isAddrOf(e.Args[0], ws, ef) && seen > 0 && e.Res == pt.Results[0] {
					ok = true
				}
			case "Store", "AtomicStore", "CloseChan", "CAS":
				if !e.Flag {
					c.ob(false, "verdict", rel(c, wait)+" (waiter)", e.Pos, pt, "a waiter changes the latch")
				}
			}
		}
		c.ob(ok, "await", rel(c, wait), wait.Pos(), pt, "a waiter can return without the verdict: %s", pt.Results[0])
	}
	for _, rd := range readys {
		rs := selfOf(rd)
		for _, pt := range c.explore(rd, "latch", Config{Opaque: open}) {
			if !complete(pt) || len(pt.Results) != 1 {
				continue
			}
			ok := false
			for _, e := range pt.Events {
				if e.Kind == "AtomicLoad" {
					if v, o := cellField(e.Args[0]); v == flag && o == rs && flagAfter {
						t, u := pt.Facts.clone(), pt.Facts.clone()
						ok = true
						if t.assume(pt.Results[0], true) {
							ok = ok && nonZeroRead(&Path{Facts: t}, e.Res)
						}
						if u.assume(pt.Results[0], false) {
							ok = ok && zeroRead(&Path{Facts: u}, e.Res)
						}
					}
				}
				if e.Kind == "Select" {
					got := false
					for _, x := range pt.Events {
						got = got || x.Kind == "Recv" && isFieldOf(x.Args[0], rs, ch)
					}
					ok = pt.Facts.is(pt.Results[0], got)
				}
			}
			c.ob(ok, "ready", rel(c, rd), rd.Pos(), pt, "the report is not the flag raised with the verdict: %s", pt.Results[0])
		}
	}
	// nobody else
	only := func(fv *types.Var, what string) {
		c.fieldUses(fv, func(f *ssa.Function, in ssa.Instruction, write bool) {
			if write {
				c.ob(buildsHere(in) || c.withinOnly(f, give), "verdict", what+" in "+rel(c, f), in.Pos(), nil, "the latch is changed outside its giver")
			}
		})
	}
	only(ef, "verdict")
	only(ch, "channel")
	for _, f := range c.p.Funcs {
		if isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						if u, ok := ci.Common().Args[0].(*ssa.UnOp); ok {
							if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldVarOf(fa) == ch {
								c.ob(c.withinOnly(f, give), "verdict", "close in "+rel(c, f), in.Pos(), nil, "the wake-up channel is closed outside its giver")
							}
						}
					}
				}
			}
		}
	}
	if flag != nil {
		c.atomicOn(flag, func(f *ssa.Function, in ssa.Instruction, op string) {
			if len(op) >= 4 && op[:4] == "Load" {
				return
			}
			c.ob(c.withinOnly(f, give), "verdict", "flag in "+rel(c, f), in.Pos(), nil, "the flag is changed outside the giver")
		})
	}
	// reads of the verdict elsewhere
	reads := map[*ssa.Function]bool{}
	c.fieldUses(ef, func(f *ssa.Function, in ssa.Instruction, write bool) {
		if !write && !c.withinOnly(f, give) && !c.withinOnly(f, wait) {
			reads[f] = true
		}
	})
	for _, f := range c.entriesOf(reads) {
		cfg := c.rootConfig(f)
		cfg.LoopMin = 1
		for _, pt := range c.explore(f, "loop:"+f.Name(), cfg) {
			ready := map[*Term]bool{}
			for _, e := range pt.Events {
				if e.Kind == "IsReady" && pt.Facts.is(e.Res, true) || e.Kind == "Await" {
					ready[e.Args[0]] = true
				}
				if e.Kind == "Load" && e.Args[0].Op == OpFAddr && e.Args[0].FieldVar == ef {
					if e.Args[0].Args[0].Op == OpAlloc {
						continue
					}
					c.ob(ready[e.Args[0].Args[0]], "ready", "verdict read in "+c.fnName(e), e.Pos, pt, "the verdict is read although it may not have been given")
				}
			}
		}
	}
}

func isMutexLike(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}

// entriesOf: the analysed entry points from which the functions are reached.
func (c *Chk) entriesOf(fs map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	if len(fs) == 0 {
		return nil
	}
	for _, f := range c.p.entryPoints() {
		if isTestFile(c.p, f) {
			continue
		}
		hit := fs[f]
		if !hit {
			stop := func(g *ssa.Function) bool {
				k := c.r.baseOpaque(g)
				return (k == "Write" || k == "Ask" || k == "Close" || k == "Fire" || k == "Decode" || k == "Encode" || g == c.p.method("Conn", "HandlePayload")) && g != f
			}
			hit = c.p.reaches(f, stop, func(in ssa.Instruction) bool { return fs[in.Parent()] })
		}
		if hit {
			out = append(out, f)
		}
	}
	return out
}

// firstPossible: the path did not establish that somebody was here before.
func (c *Chk) firstPossible(pt *Path, self *Term) bool {
	for _, e := range pt.Events {
		switch e.Kind {
		case "OnceDone":
			return false
		case "CAS":
			if _, o := cellField(e.Args[0]); o == self && pt.Facts.is(e.Res, false) {
				return false
			}
		case "Load":
			if v, o := cellField(e.Args[0]); v != nil && o == self && e.Res != nil && e.Res.Typ != nil && nonZeroRead(pt, e.Res) && ownLock(e, self, true) {
				return false
			}
		case "AtomicLoad":
			if _, o := cellField(e.Args[0]); o == self && nonZeroRead(pt, e.Res) {
				return false
			}
		}
	}
	return true
}

func (c *Chk) gates() {
	r := c.r
	str := types.Typ[types.String]
	gets := c.methodsWhere(r.Gates, func(f *types.Func) bool {
		return sigIs(f, []types.Type{str}, []types.Type{types.NewPointer(r.Gate)})
	})
	tables := structField(r.Gates, func(t types.Type) bool { return isMapOf(t, "string", ptrTo(r.Gate)) })
	if len(gets) != 1 || len(tables) != 1 {
		c.ob(false, "anchor", "connect gates", token.NoPos, nil, "the gates have no single table and getter")
		return
	}
	get, table := gets[0], tables[0]
	open := func(fn *ssa.Function) string {
		if fn.Signature.Recv() != nil {
			if n := namedOf(fn.Signature.Recv().Type()); n == r.Gates || n == r.Gate {
				return ""
			}
		}
		return r.baseOpaque(fn)
	}
	self := selfOf(get)
	key := TT.mk(OpParam, get.Params[1].Name(), get.Params[1].Type())
	for _, pt := range c.explore(get, "gates", Config{Opaque: open}) {
		if !complete(pt) || len(pt.Results) != 1 {
			c.ob(pt.Outcome != "panic", "same-gate", rel(c, get)+" (panic)", get.Pos(), pt, "it can panic")
			continue
		}
		res, ok := pt.Results[0], false
		for _, e := range pt.Events {
			if e.Kind == "MapGet" && mapOwner(e.Args[0], table) == self && e.Args[1] == key && e.Res.Args[0] == res && present(pt, e) {
				ok = ok || ownLock(e, self, false)
			}
			if e.Kind == "MapSet" && mapOwner(e.Args[0], table) == self {
				missing := false
				for _, g := range pt.Events {
					if g.Kind == "MapGet" && g.Seq < e.Seq && mapOwner(g.Args[0], table) == self && g.Args[1] == key && absent(pt, g) && heldThrough(pt, self, g.Seq, e.Seq) {
						missing = true
					}
				}
				c.ob(e.Args[1] == key && e.Args[2] == res && res.Op == OpAlloc, "same-gate", rel(c, get)+" (entered)", e.Pos, pt, "what is entered is not what is given out")
				c.ob(missing, "same-gate", rel(c, get)+" (missing)", e.Pos, pt, "a gate may replace one that was given out before")
				ok = ok || e.Args[2] == res && missing
			}
		}
		c.ob(ok, "same-gate", rel(c, get)+" (result)", get.Pos(), pt, "the gate given out is not the one in the table: %s", res)
	}
	// the table only grows, in the getter
	for _, f := range c.p.Funcs {
		if isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c.mutates(r.Gate, true, false)(in) {
					c.ob(c.withinOnly(f, get), "same-gate", "table in "+rel(c, f), in.Pos(), nil, "a gate is entered outside the getter")
				}
				if c.mutates(r.Gate, false, true)(in) {
					c.ob(false, "same-gate", "table in "+rel(c, f), in.Pos(), nil, "a gate is removed")
				}
			}
		}
	}
	c.ob(c.p.stable[table] && r.nonnil[table], "same-gate", "table", table.Pos(), nil, "the table is replaced after construction, or missing")
	c.ob(c.p.stable[r.processes] && r.nonnil[r.processes], "same-gate", "gates of a connection", r.processes.Pos(), nil, "the gates are replaced after construction, or missing")

	m := func(n string) *ssa.Function {
		fs := c.methodsWhere(r.Gate, func(f *types.Func) bool { return f.Name() == n && sigIs(f, nil, nil) })
		if len(fs) != 1 {
			c.ob(false, "anchor", "gate "+n, token.NoPos, nil, "method not found")
			return nil
		}
		return fs[0]
	}
	start, done, wait := m("Start"), m("Done"), m("Wait")
	if start == nil || done == nil || wait == nil {
		return
	}
	// the channel waited on
	var ch *types.Var
	ws := selfOf(wait)
	for _, pt := range c.explore(wait, "gate", Config{Opaque: open}) {
		for _, e := range pt.Events {
			if e.Kind == "Recv" {
				if v, o := cellField(e.Args[0]); o == ws {
					ch = v
				}
			}
		}
	}
	if ch == nil {
		c.ob(false, "gate-wait", rel(c, wait), wait.Pos(), nil, "Wait does not receive from a channel of the gate")
		return
	}
	var ctr *types.Var
	for _, v := range structField(r.Gate, isInteger) {
		ctr = v
	}
	if ctr == nil {
		c.ob(false, "anchor", "gate counter", token.NoPos, nil, "the gate does not count what is running")
		return
	}
	for _, pt := range c.explore(wait, "gate", Config{Opaque: open}) {
		if !complete(pt) {
			c.ob(pt.Outcome != "panic", "gate-wait", rel(c, wait)+" (panic)", wait.Pos(), pt, "it can panic")
			continue
		}
		ok := false
		for _, e := range pt.Events {
			if e.Kind == "Load" && isAddrOf(e.Args[0], ws, ch) {
				if pt.Facts.isNil(e.Res) && ownLock(e, ws, false) {
					ok = true
				}
				for _, x := range pt.Events {
					if x.Kind == "Recv" && x.Args[0] == e.Res && x.Seq > e.Seq && ownLock(e, ws, false) {
						c.ob(len(x.Locks) == 0, "gate-wait", rel(c, wait)+" (unlocked)", x.Pos, pt, "it waits while holding the lock that releases it")
						ok = true
					}
				}
			}
			if e.Kind == "Load" && isAddrOf(e.Args[0], ws, ctr) && ownLock(e, ws, false) && pt.Facts.eqv(e.Res, TT.Int(0)) == True {
				ok = true
			}
		}
		c.ob(ok, "gate-wait", rel(c, wait), wait.Pos(), pt, "it can return while something is running, or misses the release")
	}
	ss := selfOf(start)
	for _, pt := range c.explore(start, "gate", Config{Opaque: open}) {
		if !complete(pt) {
			c.ob(pt.Outcome != "panic", "gate-start", rel(c, start)+" (panic)", start.Pos(), pt, "it can panic")
			continue
		}
		v := c.gateStep(pt, ss, ctr, ch)
		if !c.ob(v.n != nil && v.locked, "gate-start", rel(c, start)+" (counted)", start.Pos(), pt, "the count is not read and written in one hold of the lock") {
			continue
		}
		c.ob(v.after == mkBin(token.ADD, v.n, TT.Int(1), v.n.Typ), "gate-start", rel(c, start)+" (up)", start.Pos(), pt, "the count becomes %s", v.after)
		switch {
		case v.idle():
			c.ob(v.made == 1 && v.closed == 0, "gate-start", rel(c, start)+" (holds again)", start.Pos(), pt, "nothing was running and the old, closed channel stays")
		case v.busy():
			c.ob(v.made == 0 && v.closed == 0, "gate-start", rel(c, start)+" (keeps)", start.Pos(), pt, "the channel others wait on is replaced")
		default:
			c.ob(false, "gate-start", rel(c, start)+" (known)", start.Pos(), pt, "it does not depend on what is running")
		}
	}
	ds := selfOf(done)
	for _, pt := range c.explore(done, "gate", Config{Opaque: open}) {
		if !complete(pt) {
			c.ob(pt.Outcome != "panic", "gate-done", rel(c, done)+" (panic)", done.Pos(), pt, "it can panic")
			continue
		}
		v := c.gateStep(pt, ds, ctr, ch)
		if !c.ob(v.n != nil && (v.locked || v.after == nil), "gate-done", rel(c, done)+" (counted)", done.Pos(), pt, "the count is not read and written in one hold of the lock") {
			continue
		}
		lo, hi := v.fa.rng(v.n)
		// what runs is never negative: Start adds one, Done takes one only if there is one
		if hi > 0 && v.fa.eqv(v.n, TT.Int(0)) == False {
			lo = max(lo, 1)
		}
		if v.fa.eqv(v.n, TT.Int(0)) == True {
			hi = 0
		}
		left := func() Tri {
			if x := v.fa.eqv(v.after, TT.Int(0)); x != Unknown {
				return x
			}
			return v.fa.eqv(v.n, TT.Int(1))
		}
		switch {
		case v.after != nil:
			c.ob(v.after == mkBin(token.SUB, v.n, TT.Int(1), v.n.Typ) && lo >= 1 || v.after == TT.Int(0) && v.fa.eqv(v.n, TT.Int(1)) == True, "gate-done", rel(c, done)+" (down)", done.Pos(), pt, "the count becomes %s", v.after)
			switch left() {
			case True:
				c.ob(v.closed == 1, "gate-done", rel(c, done)+" (released)", done.Pos(), pt, "the last one does not release the waiters")
			case False:
				c.ob(v.closed == 0, "gate-done", rel(c, done)+" (not yet)", done.Pos(), pt, "waiters are released while something is running")
			default:
				c.ob(false, "gate-done", rel(c, done)+" (known)", done.Pos(), pt, "the release does not depend on what is left")
			}
		default:
			c.ob(hi <= 0 && v.closed == 0, "gate-done", rel(c, done)+" (nothing ran)", done.Pos(), pt, "something was running and it is not counted down, or nothing ran and the channel is closed again")
		}
	}
	// nobody else
	for _, fv := range []*types.Var{ctr, ch} {
		c.fieldUses(fv, func(f *ssa.Function, in ssa.Instruction, write bool) {
			if write && !buildsHere(in) {
				c.ob(c.withinOnly(f, start) || c.withinOnly(f, done), "gate-start", fv.Name()+" in "+rel(c, f), in.Pos(), nil, "the gate is changed outside Start and Done")
			}
		})
	}
	c.need("gate-start", 2)
	c.need("gate-done", 2)
}

type gateStep struct {
	n, after     *Term
	locked       bool
	made, closed int
	nilCh        bool
	pt           *Path
	again        []*Term
	fa           *Facts
}

func (v *gateStep) idle() bool {
	_, hi := v.fa.rng(v.n)
	return hi <= 0 || v.fa.eqv(v.n, TT.Int(0)) == True || v.nilCh || v.fa.eqv(v.after, TT.Int(1)) == True
}
func (v *gateStep) busy() bool {
	lo, _ := v.fa.rng(v.n)
	return lo >= 1 || v.fa.eqv(v.n, TT.Int(0)) == False || v.fa.eqv(v.after, TT.Int(1)) == False
}

func (c *Chk) gateStep(pt *Path, self *Term, ctr, ch *types.Var) *gateStep {
	v := &gateStep{pt: pt, fa: pt.Facts}
	from, to := 0, 0
	for _, e := range pt.Events {
		switch e.Kind {
		case "Load":
			if isAddrOf(e.Args[0], self, ctr) && v.after == nil {
				if v.n == nil {
					v.n = e.Res
					from = e.Seq
				}
				v.again = append(v.again, e.Res)
				to = e.Seq
			}
			if isAddrOf(e.Args[0], self, ch) && pt.Facts.isNil(e.Res) {
				v.nilCh = true
			}
		case "Store":
			if isAddrOf(e.Args[0], self, ctr) {
				v.after, to = e.Args[1], e.Seq
			}
			if isAddrOf(e.Args[0], self, ch) {
				to = e.Seq
				if e.Args[1].Op == OpAlloc {
					v.made++
				} else {
					v.made += 100
				}
			}
		case "CloseChan":
			if isFieldOf(e.Args[0], self, ch) {
				v.closed++
				to = e.Seq
			} else {
				v.closed += 100
			}
		}
	}
	v.locked = v.n != nil && heldThrough(pt, self, from, to)
	if v.locked {
		// read again in the same hold of the lock it is the same number
		f := pt.Facts.clone()
		for _, a := range v.again {
			lo, hi := f.rng(v.n)
			l, h := f.rng(a)
			f.lo[v.n], f.hi[v.n] = max(lo, l), min(hi, h)
			if f.eqv(a, TT.Int(0)) == False {
				f.assume(mkEq(v.n, TT.Int(0)), false)
			}
			if f.eqv(a, TT.Int(1)) == False {
				f.assume(mkEq(v.n, TT.Int(1)), false)
			}
			if v.after == mkBin(token.SUB, a, TT.Int(1), a.Typ) {
				v.after = mkBin(token.SUB, v.n, TT.Int(1), a.Typ)
			}
			if v.after == mkBin(token.ADD, a, TT.Int(1), a.Typ) {
				v.after = mkBin(token.ADD, v.n, TT.Int(1), a.Typ)
			}
		}
		v.fa = f
	}
	return v
}

// gateKey: the gate belongs to this name of this connection.
func (c *Chk) gateOf(pt *Path, g *Term) (conn, name *Term) {
	for _, e := range pt.Events {
		if e.Kind == "GateGet" && e.Res == g {
			if o := fieldBase(e.Args[0], c.r.processes); o != nil {
				return o, e.Args[1]
			}
		}
	}
	return nil, nil
}

func (c *Chk) gateUse() {
	r := c.r
	conn := c.p.method("Conn", "Connect")
	h := c.p.method("Conn", "HandlePayload")
	if conn == nil || h == nil {
		c.ob(false, "anchor", "Conn.Connect, Conn.HandlePayload", token.NoPos, nil, "not found")
		return
	}
	// everybody who starts or asks to connect
	starts := map[*ssa.Function]bool{}
	for _, f := range c.p.Funcs {
		if isTestFile(c.p, f) {
			continue
		}
		for _, g := range c.p.staticRefs(f) {
			if k := r.baseOpaque(g); k == "GateStart" || k == "GateDone" {
				starts[f] = true
			}
		}
	}
	roots := c.entriesOf(starts)
	found := false
	for _, root := range roots {
		found = found || root == conn
	}
	if !found {
		roots = append(roots, conn)
	}
	for _, root := range roots {
		for _, pt := range c.explore(root, "root:"+root.Name(), c.rootConfig(root)) {
			name := rel(c, root)
			open := map[*Term]*Event{}
			closedAt := map[*Term]int{}
			for _, e := range pt.Events {
				switch e.Kind {
				case "GateStart":
					open[e.Args[0]] = e
				case "GateDone":
					c.ob(open[e.Args[0]] != nil && closedAt[e.Args[0]] == 0, "attempt", name+" (once)", e.Pos, pt, "a gate is ended that was not started here, or twice")
					closedAt[e.Args[0]] = e.Seq
				}
			}
			for _, e := range pt.Events {
				negotiate := e.Kind == "Fire" && c.isEv(pt, mf(c.argOf(e, c.isMsg), r.mEvent), "OnNamespaceConnect") && isReplyPath(pt) == nil
				negotiate = negotiate || e.Kind == "Ask" && c.isEv(pt, mf(c.argOf(e, c.isMsg), r.mEvent), "OnNamespaceConnect")
				entered := e.Kind == "MapSet" && mapOwner(e.Args[0], r.nsMap) != nil && !e.Flag && isReplyPath(pt) == nil
				if !negotiate && !entered {
					continue
				}
				ok := false
				for g, st := range open {
					o, k := c.gateOf(pt, g)
					ns := (*Term)(nil)
					if entered {
						ns = e.Args[1]
					} else {
						ns = mf(c.argOf(e, c.isMsg), r.mNS)
					}
					owner := o
					switch {
					case entered:
						owner = mapOwner(e.Args[0], r.nsMap)
					case e.Kind == "Ask":
						owner = e.Args[0]
					}
					if o != nil && o == owner && st.Seq < e.Seq && sameStr(pt, k, ns) && (closedAt[g] == 0 || closedAt[g] > e.Seq) {
						ok = true
					}
				}
				c.ob(ok, "attempt", name+" (during "+e.Kind+")", e.Pos, pt, "messages of the namespace are not held back during the attempt")
			}
			if complete(pt) || pt.Outcome == "panic" {
				for g, st := range open {
					c.ob(closedAt[g] > st.Seq, "attempt", name+" (released)", st.Pos, pt, "the waiters of the gate are never released")
				}
			}
		}
	}
	// incoming messages
	_, only := c.nativeFields()
	hs := selfOf(h)
	for _, pt := range c.explore(h, "root:HandlePayload", c.rootConfig(h)) {
		in := isReplyPath(pt)
		if in == nil {
			continue
		}
		ev := mf(in, r.mEvent)
		waited := 0
		for _, e := range pt.Events {
			if e.Kind == "GateWait" {
				if o, k := c.gateOf(pt, e.Args[0]); o == hs && sameStr(pt, k, mf(in, r.mNS)) {
					waited = e.Seq
				}
				c.ob(c.notEv(pt, ev, "OnNamespaceConnect"), "held-back", c.fnName(e)+" (connect requests)", e.Pos, pt, "a connect request waits for the own attempt, whose answer it may hold up")
			}
			if e.Kind == "MapGet" && (mapOwner(e.Args[0], r.connWait) != nil || mapOwner(e.Args[0], r.srvWait) != nil) {
				c.ob(waited == 0, "held-back", c.fnName(e)+" (replies)", e.Pos, pt, "a reply waits for the attempt that waits for it")
			}
			if e.Kind == "MapGet" && mapOwner(e.Args[0], r.nsMap) == hs {
				if pt.Facts.is(of(hs, only), true) || c.isEv(pt, ev, "OnNamespaceConnect") || c.isEv(pt, ev, "OnNamespaceDisconnect") {
					continue
				}
				c.ob(waited > 0 && waited < e.Seq, "held-back", c.fnName(e), e.Pos, pt, "the membership is looked up while a connect attempt may be running")
			}
		}
	}
}

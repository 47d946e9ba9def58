package main

// C08: the end of a connection.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C08"] = checkC08 }

// srvLoops: the functions that keep the server's set of connections.
func (c *Chk) srvLoops() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	pred := func(in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok {
			return false
		}
		u, ok := mu.Map.(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && fieldVarOf(fa) == c.r.connections
	}
	for _, f := range c.p.Funcs {
		if fnPkg(f) != c.p.Root || isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					t := c.p.goTarget(g)
					if t != nil && !seen[t] && c.p.reaches(t, nil, pred) {
						seen[t] = true
						out = append(out, t)
					}
				}
			}
		}
	}
	if len(out) == 0 {
		c.ob(false, "anchor", "server loop", token.NoPos, nil, "no goroutine keeps the server's connections")
	}
	return out
}

func (c *Chk) loopPaths(f *ssa.Function) []*Path {
	cfg := c.rootConfig(f)
	cfg.LoopMin = 1
	return c.explore(f, "loop:"+f.Name(), cfg)
}

// recvField: the value was received from a channel held in a field; gives field and owner.
func recvField(t *Term) (*types.Var, *Term) {
	if t != nil && t.Op == OpRecv && t.Args[0].Op == OpLoad && t.Args[0].Args[0].Op == OpFAddr {
		return t.Args[0].Args[0].FieldVar, t.Args[0].Args[0].Args[0]
	}
	return nil, nil
}

// srvChans: the channels on which the loop learns of new and of ended connections.
func (c *Chk) srvChans() (join, leave *types.Var) {
	for _, f := range c.srvLoops() {
		for _, pt := range c.loopPaths(f) {
			for _, e := range pt.Events {
				switch e.Kind {
				case "MapSet":
					if mapOwner(e.Args[0], c.r.connections) != nil {
						if v, _ := recvField(e.Args[1]); v != nil {
							join = v
						}
					}
				case "MapDel":
					if mapOwner(e.Args[0], c.r.connections) != nil {
						if v, _ := recvField(e.Args[1]); v != nil {
							leave = v
						}
					}
				}
			}
		}
	}
	if join == nil || leave == nil || join == leave {
		c.ob(false, "anchor", "server channels", token.NoPos, nil, "the server loop does not add and remove connections it receives on two channels")
	}
	return
}

// ackVar: the flag of Conn that the reader raises when the handshake is complete.
func (c *Chk) ackVar() *types.Var {
	var fv *types.Var
	for _, rd := range c.readers() {
		for _, pt := range c.explore(rd, "reader", c.readerConfig(rd)) {
			for _, e := range pt.Events {
				if e.Kind == "AtomicStore" && isOne(e.Args[1]) {
					if v, o := cellField(e.Args[0]); v != nil && o != nil && namedOf(o.Typ) == c.r.Conn {
						if fv != nil && fv != v {
							c.ob(false, "anchor", "acknowledged flag", e.Pos, nil, "the reader raises more than one flag: %s, %s", fv.Name(), v.Name())
						}
						fv = v
					}
				}
			}
		}
	}
	if fv == nil {
		c.ob(false, "anchor", "acknowledged flag", token.NoPos, nil, "the reader raises no flag when the handshake is complete")
	}
	return fv
}

// effects are the events of a teardown that others can see.
func isEffect(e *Event) bool {
	switch e.Kind {
	case "Fire", "MapDel", "MapSet", "MapClear", "AtomicStore", "AtomicAdd", "Go", "Send", "CloseChan", "Invoke", "Dyn", "Write", "Ask", "Verdict", "Call":
		return !(e.Kind == "MapSet" && e.Flag)
	case "Store":
		return !e.Flag
	}
	return false
}

// withinOnly: the function runs only as part of fn.
func (c *Chk) withinOnly(f, fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function) bool
	rec = func(g *ssa.Function) bool {
		if g == fn || seen[g] {
			return true
		}
		seen[g] = true
		if g.Parent() != nil {
			return rec(g.Parent())
		}
		callers := 0
		for _, h := range c.p.Funcs {
			if isTestFile(c.p, h) {
				continue
			}
			for _, r := range c.p.staticRefs(h) {
				if r == g {
					callers++
					if !rec(h) {
						return false
					}
					break
				}
			}
		}
		return callers > 0
	}
	return rec(f)
}

// atomicOn lists the atomic operations on a field outside of tests.
func (c *Chk) atomicOn(fv *types.Var, visit func(f *ssa.Function, in ssa.Instruction, op string)) {
	var from func(v ssa.Value, d int) bool
	from = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		switch v := v.(type) {
		case *ssa.FieldAddr:
			return fieldVarOf(v) == fv || from(v.X, d+1)
		case *ssa.UnOp:
			return from(v.X, d+1)
		case *ssa.ChangeType:
			return from(v.X, d+1)
		}
		return false
	}
	for _, f := range c.p.Funcs {
		if isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || pkgPathOf(g) != "sync/atomic" || len(ci.Common().Args) == 0 {
					continue
				}
				if from(ci.Common().Args[0], 0) {
					visit(f, in, g.Name())
				}
			}
		}
	}
}

func checkC08(c *Chk) {
	r := c.r
	c.rule("once", "Close claims the closed flag by compare-and-swap from 0 to 1 before anything else it does, does nothing when it fails, and nothing else changes the flag or closes the close channel")
	c.rule("namespaces", "every connected namespace is walked over after the flag is claimed, its rooms are force-left first, its disconnect callback runs once with forced and local set, and it is removed; the walk cannot stop early")
	c.rule("asks", "every pending ask of the connection is dropped")
	c.rule("signals", "the acknowledgement is taken back, the close channel is closed once after the callbacks, the network connection is closed, and on the server the registry is told without blocking")
	c.rule("late-member", "a membership is added only while the connection is seen open under the lock that Close's walk takes")
	c.rule("reader", "the read loop ends only by closing the connection, or because another reader took its place, or before it began on a connection that is closed already")
	c.rule("reports", "IsClosed reports the flag")
	cl := c.p.method("Conn", "Close")
	closed := c.closedVar()
	_, only := c.nativeFields()
	ack := c.ackVar()
	_, leave := c.srvChans()
	if closed == nil || only == nil || ack == nil || leave == nil {
		return
	}
	self := TT.mk(OpParam, cl.Params[0].Name(), cl.Params[0].Type())
	name := "(*Conn).Close"
	var nsLocks, roomLocks map[*types.Var]bool
	for _, pt := range c.explore(cl, "Conn.Close", c.except("Close")) {
		var cas *Event
		for _, e := range pt.Events {
			if e.Kind == "CAS" && cas == nil {
				if v, o := cellField(e.Args[0]); v == closed && o == self {
					cas = e
				}
			}
			if isEffect(e) && (cas == nil || !pt.Facts.is(cas.Res, true)) {
				c.ob(false, "once", name+" (claimed first)", e.Pos, pt, "%s %s happens without having claimed the flag", e.Kind, e.Name)
			}
		}
		if cas == nil {
			c.ob(false, "once", name, cl.Pos(), pt, "the flag is not claimed")
			continue
		}
		c.ob(isZero(cas.Args[1]) && isOne(cas.Args[2]), "once", name+" (from 0 to 1)", cas.Pos, pt, "the flag is not moved from 0 to 1")
		if !pt.Facts.is(cas.Res, true) {
			continue
		}
		native := pt.Facts.is(of(self, only), true)
		fires := c.fires(pt)
		lastFire, firstRange := 0, 0
		for _, f := range fires {
			lastFire = f.ev.Seq
		}
		// the walk
		for _, e := range pt.Events {
			if e.Kind == "Range" {
				if fieldBase(e.Args[0], r.nsMap) == self {
					if firstRange == 0 {
						firstRange = e.Seq
					}
					nsLocks = meetLocks(nsLocks, e.Locks, self)
				} else if o := fieldBase(e.Args[0], r.roomMap); o != nil {
					roomLocks = meetLocks(roomLocks, e.Locks, o)
				}
			}
		}
		evs, els := c.visits(pt, r.nsMap)
		roomEvs, roomEls := c.visits(pt, r.roomMap)
		for i, v := range evs {
			if c.tableOf(els[i], r.nsMap) != self {
				continue
			}
			el := els[i]
			whole := v.Kind != "Elem" || v.Args[0].Op != OpSlice
			n, forced, seq := 0, true, 0
			for _, f := range fires {
				if f.ns == el && c.isEv(pt, f.name, "OnNamespaceDisconnect") {
					n++
					seq = f.ev.Seq
					forced = forced && pt.Facts.is(mf(f.msg, r.mForced), true) && pt.Facts.is(mf(f.msg, r.mLocal), true) && c.elemKey(pt, el, mf(f.msg, r.mNS), r.nsName)
				}
			}
			del, rooms := false, 0
			for _, e := range pt.Events {
				if e.Kind == "MapDel" && e.Seq > seq && mapOwner(e.Args[0], r.nsMap) == self && c.elemKey(pt, el, e.Args[1], r.nsName) {
					del = true
				}
				if e.Kind == "Range" && e.Seq > v.Seq && fieldBase(e.Args[0], r.roomMap) == el {
					rooms = e.Seq
				}
			}
			// a path that was cut inside this element's turn is judged by its siblings
			if !complete(pt) && !del {
				continue
			}
			c.ob(whole && n == 1, "namespaces", name+" (callback)", v.Pos, pt, "the disconnect callback of a connected namespace does not run exactly once")
			c.ob(forced, "namespaces", name+" (flags)", v.Pos, pt, "the disconnect callback runs without the forced and local flags and its namespace")
			c.ob(del, "namespaces", name+" (removed)", v.Pos, pt, "a connected namespace stays")
			c.ob(rooms > v.Seq && rooms < seq, "namespaces", name+" (rooms first)", v.Pos, pt, "the rooms are not left before the disconnect callback")
		}
		for i, v := range roomEvs {
			el := roomEls[i]
			o := c.tableOf(el, r.roomMap)
			del := 0
			out := false // somebody else left it meanwhile
			for _, g := range c.gets(pt, r.roomMap, o, nil) {
				out = out || g.Seq > v.Seq && absent(pt, g) && c.elemKey(pt, el, g.Args[1], r.roomName)
			}
			if out {
				for _, f := range fires {
					if f.ns == o && c.isEv(pt, f.name, "OnRoomLeft") && c.elemKey(pt, el, mf(f.msg, r.mRoom), r.roomName) {
						c.ob(false, "namespaces", name+" (OnRoomLeft, left already)", v.Pos, pt, "the left callback runs for a room that was left already")
					}
				}
				continue
			}
			for _, e := range pt.Events {
				if e.Kind == "MapDel" && e.Seq > v.Seq && mapOwner(e.Args[0], r.roomMap) == o && c.elemKey(pt, el, e.Args[1], r.roomName) {
					del = e.Seq
				}
			}
			if !complete(pt) && del == 0 {
				continue
			}
			c.ob(del > 0 && (v.Kind != "Elem" || v.Args[0].Op != OpSlice), "namespaces", name+" (room removed)", v.Pos, pt, "a joined room stays")
			for _, ev := range []string{"OnRoomLeave", "OnRoomLeft"} {
				n, ok := 0, true
				for _, f := range fires {
					if f.ns == o && c.isEv(pt, f.name, ev) && c.elemKey(pt, el, mf(f.msg, r.mRoom), r.roomName) {
						n++
						ok = ok && pt.Facts.is(mf(f.msg, r.mForced), true) && pt.Facts.is(mf(f.msg, r.mLocal), true) && (f.ev.Seq < del) == (ev == "OnRoomLeave")
					}
				}
				if n == 0 && !complete(pt) {
					continue
				}
				c.ob(n == 1 && ok, "namespaces", name+" ("+ev+")", v.Pos, pt, "the room callback does not run exactly once, forced and local")
			}
		}
		for _, e := range pt.Events {
			if e.Kind == "EarlyExit" {
				c.ob(false, "namespaces", name+" (early exit)", e.Pos, pt, "a walk of the teardown can stop early")
			}
		}
		if !complete(pt) {
			c.ob(pt.Outcome != "panic", "once", name+" (panic)", cl.Pos(), pt, "it can panic")
			continue
		}
		if !native {
			c.ob(firstRange > cas.Seq, "namespaces", name+" (walk)", cas.Pos, pt, "the connected namespaces are not walked over")
			dropped := false
			for _, e := range pt.Events {
				if e.Kind == "MapClear" && mapOwner(e.Args[0], r.connWait) == self {
					dropped = true
				}
				if e.Kind == "Store" && isAddrOf(e.Args[0], self, r.connWait) && e.Seq > cas.Seq {
					dropped = true
				}
				if e.Kind == "Range" && fieldBase(e.Args[0], r.connWait) == self {
					dropped = true
					for _, n := range pt.Events {
						if n.Kind == "Next" && n.Args[0] == e.Res && pt.Facts.is(n.Args[1], true) {
							gone := false
							for _, d := range pt.Events {
								gone = gone || (d.Kind == "MapDel" && d.Seq > n.Seq && mapOwner(d.Args[0], r.connWait) == self && d.Args[1] == n.Args[2])
							}
							c.ob(gone, "asks", name+" (each)", n.Pos, pt, "a pending ask stays")
						}
					}
				}
			}
			c.ob(dropped, "asks", name, cas.Pos, pt, "pending asks are not dropped")
		}
		acks, chans, nets, told := 0, 0, 0, 0
		for _, e := range pt.Events {
			switch e.Kind {
			case "AtomicStore":
				if v, o := cellField(e.Args[0]); v == ack && o == self {
					if isZero(e.Args[1]) {
						acks++
					} else {
						acks -= 100
					}
				}
			case "CloseChan":
				if isFieldOf(e.Args[0], self, r.closeCh) {
					chans++
					c.ob(e.Seq > lastFire, "signals", name+" (close channel last)", e.Pos, pt, "the close channel is closed before the callbacks ran")
				}
			case "Invoke":
				if e.Name == "net.Conn.Close" && e.Gor == 0 {
					x := e.Args[0]
					if x.Op == OpFresh && x.Sym == "neffos.Socket.NetConn" || x.Op == OpFresh && len(x.Args) > 0 && isFieldOf(x.Args[0], self, r.socket) {
						nets++
					}
				}
			case "Send":
				if fieldBase(e.Args[0], leave) == of(self, r.connServer) && e.Args[1] == self {
					told++
					c.ob(e.Gor > 0, "signals", name+" (told without blocking)", e.Pos, pt, "Close can block on the server's loop, which may be the caller")
				}
			}
		}
		c.ob(acks == 1 || acks > 0, "signals", name+" (acknowledged)", cas.Pos, pt, "the connection stays acknowledged")
		c.ob(chans == 1, "signals", name+" (close channel)", cas.Pos, pt, "the close channel is closed %d times", chans)
		c.ob(nets >= 1, "signals", name+" (network)", cas.Pos, pt, "the network connection is not closed")
		switch c.side(pt, self) {
		case 1:
			c.ob(told == 1, "signals", name+" (server told)", cas.Pos, pt, "the server is told %d times", told)
		case -1:
		default:
			c.ob(told == 1, "signals", name+" (server told)", cas.Pos, pt, "the server may not be told")
		}
	}
	// nobody else
	c.atomicOn(closed, func(f *ssa.Function, in ssa.Instruction, op string) {
		if len(op) >= 4 && op[:4] == "Load" {
			return
		}
		c.ob(c.withinOnly(f, cl), "once", "closed flag in "+rel(c, f), in.Pos(), nil, "the flag is changed outside Close")
	})
	for _, f := range c.p.Funcs {
		if isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" {
						if u, ok := ci.Common().Args[0].(*ssa.UnOp); ok {
							if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldVarOf(fa) == r.closeCh {
								c.ob(c.withinOnly(f, cl), "once", "close channel in "+rel(c, f), in.Pos(), nil, "the close channel is closed outside Close")
							}
						}
					}
				}
			}
		}
	}
	c.ob(c.p.stable[r.closeCh], "once", "close channel", token.NoPos, nil, "the close channel is replaced after construction")
	// IsClosed
	if ic := c.p.method("Conn", "IsClosed"); ic != nil {
		s2 := TT.mk(OpParam, ic.Params[0].Name(), ic.Params[0].Type())
		for _, pt := range c.explore(ic, "IsClosed", c.base()) {
			if !complete(pt) || len(pt.Results) != 1 {
				continue
			}
			ok := false
			for _, e := range pt.Events {
				if e.Kind == "AtomicLoad" {
					if v, o := cellField(e.Args[0]); v == closed && o == s2 {
						t := pt.Facts.clone()
						u := pt.Facts.clone()
						ok = true
						if t.assume(pt.Results[0], true) {
							p2 := &Path{Facts: t}
							ok = ok && nonZeroRead(p2, e.Res)
						}
						if u.assume(pt.Results[0], false) {
							p2 := &Path{Facts: u}
							ok = ok && zeroRead(p2, e.Res)
						}
					}
				}
			}
			c.ob(ok, "reports", rel(c, ic), ic.Pos(), pt, "IsClosed does not report the flag: %s", pt.Results[0])
		}
	}
	// memberships added while closing
	for _, k := range []kind{c.nsKind(), c.roomKind()} {
		locks := nsLocks
		if k.what == "room" {
			locks = roomLocks
		}
		pr := c.mutates(k.elem, true, false)
		for _, root := range c.rootsFor(pr) {
			for _, pt := range c.explore(root, "root:"+root.Name(), c.rootConfig(root)) {
				for _, e := range pt.Events {
					if e.Kind != "MapSet" || mapOwner(e.Args[0], k.fv) == nil || e.Flag {
						continue
					}
					owner := mapOwner(e.Args[0], k.fv)
					if rootOf(owner).Op == OpAlloc {
						continue // a connection under construction
					}
					conn := c.connOf(k, owner)
					ok := false
					for _, l := range e.Locks {
						if l.Read || l.Addr.Op != OpFAddr || l.Addr.Args[0] != owner || !locks[l.Addr.FieldVar] {
							continue
						}
						from := 0
						for _, x := range pt.Events {
							if x.Seq > e.Seq {
								break
							}
							if x.Kind == "Lock" && x.Args[0] == l.Addr {
								from = x.Seq
							}
							if x.Kind == "AtomicLoad" && from > 0 && x.Seq > from {
								if v, o := cellField(x.Args[0]); v == closed && o == conn && zeroRead(pt, x.Res) {
									ok = true
								}
							}
							if x.Kind == "Unlock" && x.Args[0] == l.Addr {
								ok, from = false, 0
							}
						}
					}
					c.ob(ok, "late-member", c.fnName(e)+" ("+k.what+")", e.Pos, pt, "a %s can be added to a connection that Close already went over", k.what)
				}
			}
		}
	}
	// the readers
	inside := c.insideVar()
	for _, rd := range c.readers() {
		for _, pt := range c.explore(rd, "reader", c.readerConfig(rd)) {
			if !complete(pt) {
				continue
			}
			var conn *Term
			if len(rd.Params) > 0 {
				conn = TT.mk(OpParam, rd.Params[0].Name(), rd.Params[0].Type())
			}
			closes, replaced, began := false, false, false
			for _, e := range pt.Events {
				switch e.Kind {
				case "Close":
					closes = closes || conn == nil || e.Args[0] == conn
				case "CAS":
					if v, _ := cellField(e.Args[0]); v == inside && pt.Facts.is(e.Res, false) {
						replaced = true
					}
				case "Invoke":
					began = began || e.Name == "neffos.Socket.ReadData"
				}
			}
			ok := closes != replaced
			if !began && !closes {
				ok = c.seenClosed(pt, closed, conn)
			}
			c.ob(ok, "reader", rel(c, rd), rd.Pos(), pt, "the read loop ends without closing the connection, or closes it although another reader took over")
		}
	}
	c.need("namespaces", 6)
	c.need("signals", 5)
	c.need("late-member", 2)
	c.need("reader", 1)
	c.need("reports", 1)
	c.need("once", 4)
	c.need("asks", 1)
}

func isAddrOf(a, obj *Term, fv *types.Var) bool {
	return a != nil && a.Op == OpFAddr && a.FieldVar == fv && a.Args[0] == obj
}

// meetLocks: the lock fields of owner held at every look.
func meetLocks(m map[*types.Var]bool, ls []Lock, owner *Term) map[*types.Var]bool {
	n := map[*types.Var]bool{}
	for _, l := range ls {
		if v, o := cellField(l.Addr); v != nil && o == owner && (m == nil || m[v]) {
			n[v] = true
		}
	}
	return n
}

package main

// C16: the server's view of its connections.

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C16"] = checkC16 }

// turns splits a loop's path at the points where it waits for something.
type turn struct {
	recv *Event
	got  *Term
	from int
	to   int
	cut  bool // the path ends inside this turn
}

func turns(pt *Path) []turn {
	var out []turn
	for _, e := range pt.Events {
		if e.Gor != 0 {
			continue
		}
		if e.Kind == "Select" || e.Kind == "Recv" && e.Name != "select" {
			if n := len(out); n > 0 && out[n-1].to == 1<<30 {
				out[n-1].to = e.Seq
			}
		}
		if e.Kind == "Recv" && e.Res != nil {
			got := e.Res
			if got.Op == OpTuple {
				got = got.Args[0]
			}
			out = append(out, turn{recv: e, got: got, from: e.Seq, to: 1 << 30})
		}
	}
	return out
}

// allWays: the loop's part of the path is over, so that what is missing there does not come any more.
func (t turn) over(pt *Path) bool {
	if t.to < 1<<30 || complete(pt) {
		return true
	}
	// cut when it came back to the start of the turn, not inside
	return turned(pt, t.recv)
}

func checkC16(c *Chk) {
	r := c.r
	c.rule("registered", "a connection received on the registration channel is put in the list and counted, once each; nothing else adds to either")
	c.rule("removed", "a connection received on the disconnection channel that is in the list is removed from it and subtracted, once each; one that is not changes nothing; nothing else removes or subtracts")
	c.rule("callback", "the disconnect callback runs once per removal, after it, and is skipped exactly when there is none or the connection is not ready or was rejected and firing always is off")
	c.rule("backend", "the backend, if there is one, is told of every removal once")
	c.rule("reported", "the reported total is the counter; the listings hold every connection of the list under its own ID")
	c.rule("aligned", "the counter is 64-bit aligned on 32-bit platforms as well")
	c.rule("upgrade", "a created connection is registered exactly once, on an unbuffered channel; if it is closed by then the server is told, and if the server is closed by then the connection is closed")
	c.rule("closing", "Server.Close raises the closed flag once and then has every connection of the list closed; an upgrade that sees the flag creates nothing")
	c.rule("tells", "a server connection that closes tells the server once; nothing else registers or removes")
	join, leave := c.srvChans()
	closed := c.closedVar()
	srvClosed := c.srvClosedVar()
	if join == nil || leave == nil || closed == nil || srvClosed == nil {
		return
	}
	count := c.counter()
	if count == nil {
		return
	}
	always := fieldCalled(r.Server, "FireDisconnectAlways")
	onDis := fieldCalled(r.Server, "OnDisconnect")
	se := fieldCalled(r.Server, "StackExchange")
	if always == nil || onDis == nil || se == nil {
		c.ob(false, "anchor", "Server fields", token.NoPos, nil, "FireDisconnectAlways, OnDisconnect or StackExchange not found")
		return
	}
	for _, f := range c.srvLoops() {
		self := readerConn(f)
		if !c.ob(self != nil, "anchor", "server loop", f.Pos(), nil, "the loop is not a method of the server") {
			continue
		}
		name := rel(c, f)
		cfg := c.offerConfig(f, c.publishers())
		for _, pt := range c.explore(f, "registry:"+f.Name(), cfg) {
			if complete(pt) || pt.Outcome == "panic" {
				c.ob(false, "registered", name+" (ends)", f.Pos(), pt, "the loop can end")
			}
			ts := turns(pt)
			for _, e := range pt.Events {
				if len(ts) > 0 && e.Seq > ts[0].from {
					break
				}
				c.registryFree(pt, e, self, count, onDis, name)
			}
			for _, t := range ts {
				fv, _ := recvField(t.got)
				switch {
				case fv == join && fv != nil:
					c.joinTurn(pt, t, self, count, onDis, name)
				case fv == leave && fv != nil:
					c.leaveTurn(pt, t, self, count, onDis, always, se, name)
				default:
					for _, e := range pt.Events {
						if e.Seq > t.from && e.Seq < t.to {
							c.registryFree(pt, e, self, count, onDis, name)
						}
					}
					if st, ok := t.got.Typ.Underlying().(*types.Struct); ok {
						c.actionTurn(pt, t, self, st, name)
					}
				}
			}
		}
	}
	c.totals(count)
	c.listings()
	c.alignment()
	c.upgradeRegistry(join, leave, closed, srvClosed)
	c.serverClose(srvClosed)
	// who tells the loop
	cl, up := c.p.method("Conn", "Close"), c.p.method("Server", "Upgrade")
	for _, f := range c.p.Funcs {
		if isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, ch := range sentOn(in) {
					switch ch {
					case join:
						c.ob(c.withinOnly(f, up), "tells", "registration in "+rel(c, f), in.Pos(), nil, "a connection is registered outside of its upgrade")
					case leave:
						c.ob(c.withinOnly(f, up) || c.withinOnly(f, cl), "tells", "removal in "+rel(c, f), in.Pos(), nil, "the server is told of a disconnection outside of Close")
					}
				}
			}
		}
	}
	self := selfOf(cl)
	for _, pt := range c.explore(cl, "Conn.Close", c.except("Close")) {
		if !complete(pt) {
			continue
		}
		claimed := false
		told := 0
		for _, e := range pt.Events {
			if e.Kind == "CAS" && pt.Facts.is(e.Res, true) {
				if v, o := cellField(e.Args[0]); v == closed && o == self {
					claimed = true
				}
			}
			if e.Kind == "Send" && fieldBase(e.Args[0], leave) == of(self, r.connServer) && e.Args[1] == self {
				told++
			}
		}
		want := 0
		if claimed && c.side(pt, self) != -1 {
			want = 1
		}
		c.ob(told == want, "tells", rel(c, cl), cl.Pos(), pt, "the server is told of the disconnection %d times", told)
	}
	c.need("registered", 2)
	c.need("removed", 2)
	c.need("callback", 2)
	c.need("backend", 1)
	c.need("reported", 3)
	c.need("aligned", 1)
	c.need("upgrade", 4)
	c.need("closing", 3)
	c.need("tells", 2)
}

// sentOn: the channel fields that the instruction may send on.
func sentOn(in ssa.Instruction) []*types.Var {
	var out []*types.Var
	take := func(v ssa.Value) {
		if u, ok := v.(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				out = append(out, fieldVarOf(fa))
			}
		}
	}
	switch in := in.(type) {
	case *ssa.Send:
		take(in.Chan)
	case *ssa.Select:
		for _, st := range in.States {
			if st.Dir == types.SendOnly {
				take(st.Chan)
			}
		}
	}
	return out
}

// counter: the field that GetTotalConnections reports.
func (c *Chk) counter() *types.Var {
	f := c.p.method("Server", "GetTotalConnections")
	if f == nil {
		c.ob(false, "anchor", "Server.GetTotalConnections", token.NoPos, nil, "not found")
		return nil
	}
	for _, pt := range c.explore(f, "GetTotalConnections", c.base()) {
		for _, e := range pt.Events {
			if e.Kind == "AtomicLoad" {
				if v, o := cellField(e.Args[0]); v != nil && o == selfOf(f) {
					return v
				}
			}
		}
	}
	c.ob(false, "reported", rel(c, f), f.Pos(), nil, "it does not read a counter of the server atomically")
	return nil
}

func (c *Chk) totals(count *types.Var) {
	f := c.p.method("Server", "GetTotalConnections")
	for _, pt := range c.explore(f, "GetTotalConnections", c.base()) {
		if !complete(pt) || len(pt.Results) != 1 {
			continue
		}
		ok := false
		for _, e := range pt.Events {
			if e.Kind == "AtomicLoad" && pt.Results[0] == e.Res {
				if v, o := cellField(e.Args[0]); v == count && o == selfOf(f) {
					ok = true
				}
			}
		}
		c.ob(ok, "reported", rel(c, f), f.Pos(), pt, "it reports %s", pt.Results[0])
	}
	// nothing else changes the counter
	loops := map[*ssa.Function]bool{}
	for _, l := range c.srvLoops() {
		loops[l] = true
	}
	c.atomicOn(count, func(f *ssa.Function, in ssa.Instruction, op string) {
		if len(op) >= 4 && op[:4] == "Load" {
			return
		}
		in2 := false
		for l := range loops {
			in2 = in2 || c.withinOnly(f, l)
		}
		c.ob(in2, "registered", "counter in "+rel(c, f), in.Pos(), nil, "the counter is changed outside of the server's loop")
	})
	c.fieldUses(count, func(f *ssa.Function, in ssa.Instruction, write bool) {
		if isTestFile(c.p, f) || !write {
			return
		}
		c.ob(buildsHere(in), "registered", "counter in "+rel(c, f), in.Pos(), nil, "the counter is written to")
	})
}

// registryFree: an event that may not touch list, counter or callback.
func (c *Chk) registryFree(pt *Path, e *Event, self *Term, count, onDis *types.Var, name string) {
	switch e.Kind {
	case "MapSet", "MapDel", "MapClear":
		c.ob(mapOwner(e.Args[0], c.r.connections) != self, "registered", name+" (elsewhere)", e.Pos, pt, "the list is changed without a registration or a disconnection")
	case "AtomicAdd", "AtomicStore", "AtomicSwap", "CAS":
		v, _ := cellField(e.Args[0])
		c.ob(v != count, "registered", name+" (counter elsewhere)", e.Pos, pt, "the counter is changed without a registration or a disconnection")
	case "Dyn":
		c.ob(!c.dynField(e, self, onDis.Name()), "callback", name+" (elsewhere)", e.Pos, pt, "the disconnect callback runs without a disconnection")
	case "Invoke":
		c.ob(e.Name != "neffos.StackExchange.OnDisconnect", "backend", name+" (elsewhere)", e.Pos, pt, "the backend is told of a disconnection that is none")
	}
}

// isStep: the term is the wanted step of an unsigned counter.
func isStep(t *Term, n int64) bool {
	if v, ok := t.IntVal(); ok {
		return v == n
	}
	if t.IsConst() && t.Val.Kind() == constant.Int {
		u, ok := constant.Uint64Val(t.Val)
		return ok && u == uint64(n)
	}
	return false
}

func (c *Chk) joinTurn(pt *Path, t turn, self *Term, count, onDis *types.Var, name string) {
	sets, adds := 0, 0
	known := false
	lens := map[*Term]bool{} // lengths of the list after the change
	for _, e := range pt.Events {
		if e.Seq <= t.from || e.Seq >= t.to {
			continue
		}
		switch e.Kind {
		case "MapGet":
			if mapOwner(e.Args[0], c.r.connections) == self && e.Args[1] == t.got && present(pt, e) {
				known = true
			}
		case "MapSet":
			if mapOwner(e.Args[0], c.r.connections) == self && e.Args[1] == t.got {
				sets++
				continue
			}
		case "MapLen":
			if mapOwner(e.Args[0], c.r.connections) == self && sets == 1 {
				lens[e.Args[1]] = true
			}
		case "AtomicAdd":
			if v, o := cellField(e.Args[0]); v == count && o == self && isStep(e.Args[1], 1) {
				adds++
				continue
			}
		case "AtomicStore":
			if v, o := cellField(e.Args[0]); v == count && o == self && lens[widened(e.Args[1])] {
				if !known {
					adds++
				}
				continue
			}
		}
		c.registryFree(pt, e, self, count, onDis, name)
	}
	if !t.over(pt) {
		return
	}
	if known {
		c.ob(adds == 0, "registered", name+" (known)", t.recv.Pos, pt, "a connection that is in the list is counted again")
		return
	}
	c.ob(sets == 1 && adds == 1, "registered", name, t.recv.Pos, pt, "a registered connection is listed %d times and counted %d times", sets, adds)
}

func (c *Chk) leaveTurn(pt *Path, t turn, self *Term, count, onDis, always, se *types.Var, name string) {
	r := c.r
	f := pt.Facts
	dels, subs, exact, calls, told := 0, 0, 0, 0, 0
	listed := Unknown
	delSeq := 0
	lens := map[*Term]bool{} // lengths of the list after the change
	ready, rejected := Unknown, Unknown
	for _, e := range pt.Events {
		if e.Seq <= t.from || e.Seq >= t.to {
			continue
		}
		switch e.Kind {
		case "MapGet":
			if mapOwner(e.Args[0], r.connections) == self && e.Args[1] == t.got && delSeq == 0 {
				if present(pt, e) {
					listed = True
				} else if absent(pt, e) {
					listed = False
				}
			}
		case "MapDel":
			if mapOwner(e.Args[0], r.connections) == self && e.Args[1] == t.got {
				dels++
				delSeq = e.Seq
				continue
			}
		case "MapLen":
			if mapOwner(e.Args[0], r.connections) == self && dels == 1 {
				lens[e.Args[1]] = true
			}
		case "AtomicStore":
			if v, o := cellField(e.Args[0]); v == count && o == self && lens[widened(e.Args[1])] {
				exact++
				continue
			}
		case "AtomicAdd":
			if v, o := cellField(e.Args[0]); v == count && o == self && isStep(e.Args[1], -1) {
				subs++
				continue
			}
		case "Dyn":
			if c.dynField(e, self, onDis.Name()) {
				calls++
				c.ob(len(e.Args) == 2 && e.Args[1] == t.got && e.Gor == 0, "callback", name+" (which)", e.Pos, pt, "the disconnect callback is given another connection")
				c.ob(dels == 1, "callback", name+" (after)", e.Pos, pt, "the disconnect callback runs before the removal")
				continue
			}
		case "Invoke":
			if e.Name == "neffos.StackExchange.OnDisconnect" {
				told++
				c.ob(len(e.Args) == 2 && e.Args[1] == t.got && isFieldOf(e.Args[0], self, se), "backend", name+" (which)", e.Pos, pt, "the backend is told of another connection")
				continue
			}
		case "IsReady":
			if valOwner(pt, e.Args[0], r.readiness) == t.got {
				ready = f.eval(e.Res)
			}
		case "Load":
			if a := e.Args[0]; a.Op == OpFAddr && types.Identical(a.FieldVar.Type(), errType) && isFieldOf(a.Args[0], t.got, r.readiness) {
				switch f.nilness(e.Res) {
				case True:
					rejected = False
				case False:
					rejected = True
				}
			}
		}
		c.registryFree(pt, e, self, count, onDis, name)
	}
	if !t.over(pt) {
		return
	}
	if listed == False {
		c.ob(subs+calls+told == 0, "removed", name+" (unknown)", t.recv.Pos, pt, "a connection that is not in the list is subtracted or reported")
		return
	}
	if !c.ob(listed == True && dels == 1 && subs+exact == 1, "removed", name, t.recv.Pos, pt, "a disconnected connection is removed %d times and subtracted %d times (in the list: %v)", dels, subs+exact, listed) {
		return
	}
	// the callback
	none := f.nilness(of(self, onDis)) == True
	fire := f.eval(of(self, always))
	switch calls {
	case 0:
		ok := none || fire == False && (ready == False || rejected == True)
		c.ob(ok, "callback", name+" (skipped)", t.recv.Pos, pt, "the disconnect callback is skipped for a connection that was ready and not rejected, or although it is to fire always")
	case 1:
		ok := fire == True || ready == True && rejected == False
		c.ob(ok, "callback", name+" (fired)", t.recv.Pos, pt, "the disconnect callback fires for a connection that never became ready or was rejected")
	default:
		c.ob(false, "callback", name, t.recv.Pos, pt, "the disconnect callback runs %d times", calls)
	}
	noSE := f.nilness(of(self, se)) == True
	c.ob(told == 1 || noSE && told == 0, "backend", name, t.recv.Pos, pt, "the backend is told of the disconnection %d times", told)
}

// actionTurn: what is asked to be done with every connection is.
func (c *Chk) actionTurn(pt *Path, t turn, self *Term, st *types.Struct, name string) {
	var fn *types.Var
	for i := 0; i < st.NumFields(); i++ {
		if sg, ok := st.Field(i).Type().Underlying().(*types.Signature); ok && sg.Params().Len() == 1 && c.isConnPtr(sg.Params().At(0).Type()) {
			fn = st.Field(i)
		}
	}
	if fn == nil {
		return
	}
	var rng *Event
	var keys []*Event
	ended := false
	for _, e := range pt.Events {
		if e.Seq <= t.from || e.Seq >= t.to {
			continue
		}
		if e.Kind == "Range" && mapOwner(e.Args[0], c.r.connections) == self {
			rng = e
		}
		if e.Kind == "Next" && rng != nil && e.Args[0] == rng.Res {
			if pt.Facts.is(e.Args[1], true) {
				keys = append(keys, e)
			} else {
				ended = true
			}
		}
		if e.Kind == "EarlyExit" && rng != nil && !ended {
			c.ob(false, "closing", name+" (all)", e.Pos, pt, "the remaining connections can be left out")
		}
	}
	for i, k := range keys {
		to := t.to
		if i+1 < len(keys) {
			to = keys[i+1].Seq
		}
		n := 0
		for _, e := range pt.Events {
			if e.Kind == "Dyn" && e.Seq > k.Seq && e.Seq < to && e.Args[0] == mf(t.got, fn) && len(e.Args) == 2 && e.Args[1] == k.Args[2] {
				n++
			}
		}
		if n == 0 && i == len(keys)-1 && !ended && !t.over(pt) && !turned(pt, k) {
			continue
		}
		c.ob(n == 1, "closing", name+" (each)", k.Pos, pt, "what is asked for is done %d times with a connection of the list", n)
	}
	if t.over(pt) {
		c.ob(rng != nil && ended, "closing", name+" (walk)", t.recv.Pos, pt, "what is asked for is not done with every connection of the list")
	}
	// the asker is let go after all
	for _, e := range pt.Events {
		if e.Seq > t.from && e.Seq < t.to && (e.Kind == "Send" || e.Kind == "CloseChan") && e.Args[0].any(func(x *Term) bool { return x == t.got }) {
			c.ob(ended, "closing", name+" (done)", e.Pos, pt, "the asker is told before everything was done")
		}
	}
}

// listings: the functions that return the connections.
func (c *Chk) listings() {
	r := c.r
	n := 0
	for _, f := range c.p.Funcs {
		if fnPkg(f) != c.p.Root || isTestFile(c.p, f) || f.Parent() != nil || f.Signature.Recv() == nil || namedOf(f.Signature.Recv().Type()) != r.Server || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		res := f.Signature.Results()
		if res.Len() != 1 {
			continue
		}
		mt, ok := res.At(0).Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		elemConn := c.isConnPtr(mt.Elem())
		elemNS := ptrTo(r.NSConn)(mt.Elem())
		if !elemConn && !elemNS {
			continue
		}
		n++
		self := selfOf(f)
		name := rel(c, f)
		cfg := c.base()
		cfg.LoopMin = 1
		for _, pt := range c.explore(f, "listing:"+f.Name(), cfg) {
			var rng *Event
			var keys []*Event
			ended := false
			for _, e := range pt.Events {
				switch e.Kind {
				case "Range":
					if mapOwner(e.Args[0], r.connections) == self {
						rng = e
					}
				case "Next":
					if rng != nil && e.Args[0] == rng.Res {
						if pt.Facts.is(e.Args[1], true) {
							keys = append(keys, e)
						} else {
							ended = true
						}
					}
				case "EarlyExit":
					c.ob(false, "reported", name+" (all)", e.Pos, pt, "the remaining connections can be left out")
				case "MapDel", "MapClear":
					c.ob(false, "reported", name+" (kept)", e.Pos, pt, "an entry is taken out")
				}
			}
			for i, k := range keys {
				to := 1 << 30
				if i+1 < len(keys) {
					to = keys[i+1].Seq
				} else if !complete(pt) && !turned(pt, k) {
					continue
				}
				conn := k.Args[2]
				set := 0
				var ns *Event
				for _, e := range pt.Events {
					if e.Seq < k.Seq || e.Seq > to {
						continue
					}
					if e.Kind == "MapGet" && mapOwner(e.Args[0], r.nsMap) == conn {
						ns = e
					}
					if e.Kind == "MapSet" && rootOf(e.Args[0]).Op == OpAlloc {
						key := false
						for _, id := range c.idTerms(pt, conn) {
							key = key || e.Args[1] == id
						}
						val := e.Args[2] == conn
						if elemNS {
							val = ns != nil && (e.Args[2] == ns.Res || ns.Res.Op == OpTuple && e.Args[2] == ns.Res.Args[0] || c.fromGet(e.Args[2], ns))
							key = key || c.idOfNS(pt, e.Args[1], e.Args[2])
						}
						c.ob(key && val, "reported", name+" (entry)", e.Pos, pt, "an entry is not the connection under its own ID: %s -> %s", e.Args[1], e.Args[2])
						set++
					}
				}
				if elemConn {
					c.ob(set == 1, "reported", name, k.Pos, pt, "a connection of the list is left out")
				} else {
					c.ob(ns != nil && (set == 1 && present(pt, ns) || set == 0 && absent(pt, ns)), "reported", name, k.Pos, pt, "a connection to the namespace is left out, or another one is listed")
				}
			}
			if complete(pt) {
				c.ob(rng != nil && ended, "reported", name+" (walk)", f.Pos(), pt, "the list is not walked over")
			}
		}
	}
	c.ob(n >= 2, "anchor", "listings", token.NoPos, nil, "GetConnections and GetConnectionsByNamespace not found")
}

func (c *Chk) fromGet(t *Term, get *Event) bool {
	return t != nil && t.any(func(x *Term) bool { return x == get.Res })
}

func (c *Chk) idOfNS(pt *Path, key, ns *Term) bool {
	if key.Op == OpLoad && key.Args[0].Op == OpFAddr && key.Args[0].FieldVar == c.r.connID {
		return key.Args[0].Args[0] == of(ns, c.r.nsConn)
	}
	return key == of(of(ns, c.r.nsConn), c.r.connID)
}

// alignment: 64-bit atomics on fields of structs, with the layout of a 32-bit platform.
func (c *Chk) alignment() {
	sizes := types.SizesFor("gc", "386")
	done := map[*types.Var]bool{}
	for _, f := range c.p.Funcs {
		if isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "sync/atomic" || len(ci.Common().Args) == 0 {
					continue
				}
				p, ok := ci.Common().Args[0].Type().Underlying().(*types.Pointer)
				if !ok || g.Signature.Recv() != nil {
					continue
				}
				bt, ok := p.Elem().Underlying().(*types.Basic)
				if !ok || bt.Kind() != types.Uint64 && bt.Kind() != types.Int64 {
					continue
				}
				fa, ok := ci.Common().Args[0].(*ssa.FieldAddr)
				if !ok {
					_, isAlloc := ci.Common().Args[0].(*ssa.Alloc)
					_, isGlobal := ci.Common().Args[0].(*ssa.Global)
					_, isField := ci.Common().Args[0].(*ssa.UnOp) // a pointer field: allocated on its own
					c.ob(isAlloc || isGlobal || isField, "aligned", "operand in "+rel(c, f), in.Pos(), nil, "the alignment of a 64-bit atomic operand is not known")
					continue
				}
				off := int64(0)
				known := true
				var v ssa.Value = fa
				for {
					x, ok := v.(*ssa.FieldAddr)
					if !ok {
						break
					}
					st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
					var fs []*types.Var
					for i := 0; i < st.NumFields(); i++ {
						fs = append(fs, st.Field(i))
					}
					off += sizes.Offsetsof(fs)[x.Field]
					v = x.X
					if _, isIx := v.(*ssa.IndexAddr); isIx {
						known = false
					}
				}
				fv := fieldVarOf(fa)
				if done[fv] {
					continue
				}
				done[fv] = true
				c.ob(known && off%8 == 0, "aligned", fv.Name(), in.Pos(), nil, "%s is at offset %d on a 32-bit platform: the first atomic operation on it panics", fv.Name(), off)
			}
		}
	}
}

func (c *Chk) upgradeRegistry(join, leave, closed, srvClosed *types.Var) {
	up, paths := c.upgradePaths()
	srv := selfOf(up)
	name := "Server.Upgrade"
	for _, pt := range paths {
		conn := c.newConnOf(pt)
		sawClosed, asked := false, false
		var reg []*Event
		for _, e := range pt.Events {
			switch e.Kind {
			case "AtomicLoad":
				if v, o := cellField(e.Args[0]); v == srvClosed && o == srv && len(reg) == 0 {
					asked = true
					sawClosed = sawClosed || nonZeroRead(pt, e.Res)
				}
			case "Send":
				if isFieldOf(e.Args[0], srv, join) {
					c.ob(e.Args[1] == conn && e.Gor == 0, "upgrade", name+" (which)", e.Pos, pt, "another connection is registered, or in the background")
					reg = append(reg, e)
				}
			case "Dyn":
				c.ob(asked && !sawClosed || c.dynField(e, srv, "OnUpgradeError"), "closing", name+" (refused)", e.Pos, pt, "a closed server still upgrades")
			}
		}
		if sawClosed {
			c.ob(conn == nil && len(reg) == 0, "closing", name+" (nothing created)", up.Pos(), pt, "a closed server creates a connection")
		}
		if conn == nil || !complete(pt) {
			continue
		}
		if !c.ob(len(reg) == 1, "upgrade", name+" (once)", up.Pos(), pt, "a created connection is registered %d times", len(reg)) {
			continue
		}
		// closed in the meantime
		own, told := Unknown, 0
		after := Unknown
		closes := false
		for _, e := range pt.Events {
			if e.Kind == "AtomicLoad" && e.Seq > reg[0].Seq {
				v, o := cellField(e.Args[0])
				if flagOwner(pt, e.Args[0], closed) == conn && own == Unknown {
					if nonZeroRead(pt, e.Res) {
						own = True
					} else if zeroRead(pt, e.Res) {
						own = False
					}
				}
				if v == srvClosed && o == srv && after == Unknown {
					if nonZeroRead(pt, e.Res) {
						after = True
					} else if zeroRead(pt, e.Res) {
						after = False
					}
				}
			}
			if e.Kind == "Send" && isFieldOf(e.Args[0], srv, leave) && e.Args[1] == conn {
				told++
				c.ob(e.Seq > reg[0].Seq, "upgrade", name+" (order)", e.Pos, pt, "the server is told of the disconnection before the registration")
			}
			if e.Kind == "Close" && e.Args[0] == conn && e.Seq > reg[0].Seq {
				closes = true
			}
		}
		c.ob(own == True && told == 1 || own == False && told == 0, "upgrade", name+" (closed before)", reg[0].Pos, pt, "a connection that closed before its registration stays registered, or one that did not is removed")
		c.ob(after == False || after == True && closes, "upgrade", name+" (server closed)", reg[0].Pos, pt, "a connection that is registered after the server closed stays open")
	}
	// the registration is done when the send is
	n := 0
	for _, f := range c.p.Funcs {
		if isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldVarOf(fa) != join {
					continue
				}
				n++
				mk, ok := st.Val.(*ssa.MakeChan)
				c.ob(ok && isConstInt(mk.Size, 0), "upgrade", "registration channel in "+rel(c, f), in.Pos(), nil, "the registration channel is buffered: a connection is not in the list yet when its registration is over")
			}
		}
	}
	c.ob(n > 0, "upgrade", "registration channel", token.NoPos, nil, "not made")
}

func (c *Chk) serverClose(srvClosed *types.Var) {
	f := c.p.method("Server", "Close")
	self := selfOf(f)
	name := "Server.Close"
	for _, pt := range c.explore(f, "Server.Close", c.base()) {
		if !complete(pt) {
			continue
		}
		claim := Unknown
		seq := 0
		for _, e := range pt.Events {
			switch e.Kind {
			case "CAS":
				if v, o := cellField(e.Args[0]); v == srvClosed && o == self && isZero(e.Args[1]) && isOne(e.Args[2]) {
					claim = pt.Facts.eval(e.Res)
					seq = e.Seq
				}
			case "AtomicSwap":
				if v, o := cellField(e.Args[0]); v == srvClosed && o == self && isOne(e.Args[1]) {
					seq = e.Seq
					if zeroRead(pt, e.Res) {
						claim = True
					} else if nonZeroRead(pt, e.Res) {
						claim = False
					}
				}
			}
		}
		if !c.ob(claim != Unknown, "closing", name+" (flag)", f.Pos(), pt, "the closed flag is not claimed") {
			continue
		}
		n := 0
		for _, e := range pt.Events {
			if e.Kind != "Send" || e.Seq < seq || e.Gor != 0 {
				continue
			}
			for _, a := range flatTerms(e.Args[1]) {
				if (a.Op == OpFunc || a.Op == OpClosure) && a.Fn != nil && c.closesIts(a.Fn) {
					n++
				}
			}
		}
		if claim == True {
			c.ob(n >= 1, "closing", name, f.Pos(), pt, "the connections are not asked to close after the flag is raised")
		}
	}
	// nothing lowers the flag
	c.atomicOn(srvClosed, func(g *ssa.Function, in ssa.Instruction, op string) {
		if len(op) >= 4 && op[:4] == "Load" {
			return
		}
		c.ob(c.withinOnly(g, f), "closing", "flag in "+rel(c, g), in.Pos(), nil, "the closed flag is changed outside of Close")
	})
}

func flatTerms(t *Term) []*Term {
	out := []*Term{t}
	if t.Op == OpStruct {
		out = append(out, t.Args...)
	}
	return out
}

// closesIts: the function closes the connection that it is given, on every path.
func (c *Chk) closesIts(f *ssa.Function) bool {
	ok, any := true, false
	p := c.param(f, c.isConnPtr)
	if p == nil {
		return false
	}
	for _, pt := range c.explore(f, "closes:"+f.Name(), c.base()) {
		if !complete(pt) {
			ok = false
			continue
		}
		any = true
		n := 0
		for _, e := range pt.Events {
			if e.Kind == "Close" && e.Args[0] == p {
				n++
			}
		}
		ok = ok && n == 1
	}
	return ok && any
}

// widened looks through conversions between integers that keep the value.
func widened(u *Term) *Term {
	for u.Op == OpConv && len(u.Args) == 1 && u.Typ != nil && u.Args[0].Typ != nil && isInteger(u.Typ) && isInteger(u.Args[0].Typ) && !narrower(u.Typ, u.Args[0].Typ) {
		u = u.Args[0]
	}
	return u
}

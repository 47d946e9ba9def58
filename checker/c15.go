package main

// C15: asynchronous broadcasts are neither lost nor duplicated.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C15"] = checkC15 }

// chain: the published batches that the connections wait on.
type chain struct {
	node              *types.Named
	msgs, next, ready *types.Var
	holder            *types.Named
	last              *types.Var
}

func (c *Chk) chain() *chain {
	var out *chain
	sc := c.p.Root.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		ms, ns, rs := structField(nt, c.isMsgs), structField(nt, ptrTo(nt)), structField(nt, isChan)
		if len(ms) == 1 && len(ns) == 1 && len(rs) == 1 && out == nil {
			out = &chain{node: nt, msgs: ms[0], next: ns[0], ready: rs[0]}
		}
	}
	if out == nil {
		c.ob(false, "anchor", "published batches", token.NoPos, nil, "no chain of published batches found")
		return nil
	}
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || nt == out.node {
			continue
		}
		if ls := structField(nt, ptrTo(out.node)); len(ls) == 1 {
			out.holder, out.last = nt, ls[0]
		}
	}
	if out.holder == nil {
		c.ob(false, "anchor", "published batches", token.NoPos, nil, "nothing holds the batch that is published next")
		return nil
	}
	return out
}

func checkC15(c *Chk) {
	c.rule("publish", "under one hold of the list's lock the pending batch gets the messages and a new pending successor, the successor becomes the pending one, and only then, once, the batch is made ready; nothing in between can wait")
	c.rule("cursor", "the pending batch is read under the lock before the connection is registered, and exactly one goroutine waits from it for that connection, in this delivery mode only")
	c.rule("waiter", "the goroutine waits for its batch to be ready or for the connection's end, offers the batch's messages exactly once and goes on to that batch's successor; it ends only with the connection")
	c.rule("routed", "a broadcast without backend that is not synchronous is published to the list once and waits for nothing but the list's lock")
	c.rule("every", "for each message of the list in turn: it is written, unchanged and once, to the connection, or skipped because the connection is excluded or not the named recipient; the rest is dropped only after a failed write on a connection found closed")
	c.rule("excluded", "a message is written only where its excluded ID is known to differ from the connection's ID")
	c.rule("addressed", "a message is written only where no recipient is named or the connection's ID is that recipient")
	ch := c.chain()
	if ch == nil {
		return
	}
	c.chainWrites(ch)
	pubs := c.publishers()
	c.cursorRules(ch, pubs)
	// what is done with one batch
	closed := c.closedVar()
	for _, f := range c.p.Funcs {
		if !pubs[f] {
			continue
		}
		name := rel(c, f)
		conn, list := c.param(f, c.isConnPtr), c.param(f, c.isMsgs)
		for _, pt := range c.explore(f, "offer:"+name, c.offerConfig(f, nil)) {
			stop := c.offered(pt, conn, list, -1, 1<<30, name, f.Pos())
			if !complete(pt) {
				continue
			}
			if stop != nil {
				ok := c.closedSeenAfter(pt, closed, conn, stop.Seq)
				c.ob(ok && pt.Facts.is(stop.Res, false), "every", name+" (stops)", stop.Pos, pt, "the delivery stops although the connection is not found closed after a failed write")
				continue
			}
			// the result tells the waiter whether to go on
			if len(pt.Results) == 1 && isBoolT(pt.Results[0].Typ) {
				c.ob(pt.Facts.is(pt.Results[0], true), "waiter", name+" (result)", f.Pos(), pt, "the waiter is told to end although the connection is not found closed")
			}
		}
	}
	c.need("publish", 4)
	c.need("cursor", 3)
	c.need("waiter", 4)
	c.need("routed", 1)
	c.need("every", 4)
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// chainWrites: every function that changes the chain.
func (c *Chk) chainWrites(ch *chain) {
	touch := map[*ssa.Function]bool{}
	for _, fv := range []*types.Var{ch.msgs, ch.next, ch.ready, ch.last} {
		c.fieldUses(fv, func(f *ssa.Function, in ssa.Instruction, write bool) {
			if !isTestFile(c.p, f) {
				touch[f] = true
			}
		})
	}
	routed := 0
	for _, root := range c.entriesOf(touch) {
		name := rel(c, root)
		for _, pt := range c.explore(root, "chain:"+name, c.chainConfig(root)) {
			n := 0
			for _, e := range pt.Events {
				switch e.Kind {
				case "Store":
					a := e.Args[0]
					if a.Op != OpFAddr {
						continue
					}
					obj := a.Args[0]
					if obj.Op == OpAlloc && freshOwner(pt, obj, e.Seq) {
						continue
					}
					switch a.FieldVar {
					case ch.msgs:
						n++
						c.publication(pt, e, ch, obj, name)
					case ch.next, ch.ready:
						c.ob(c.published(pt, ch, obj, e.Seq), "publish", name+" ("+a.FieldVar.Name()+")", e.Pos, pt, "the %s of a batch is changed outside of its publication", a.FieldVar.Name())
					case ch.last:
						ok := false
						for _, g := range pt.Events {
							if g.Kind == "Store" && g.Args[0].Op == OpFAddr && g.Args[0].FieldVar == ch.msgs && ownLock(g, obj, true) {
								ok = true
							}
						}
						c.ob(ok && ownLock(e, obj, true), "publish", name+" (pending)", e.Pos, pt, "the pending batch is replaced without being published")
					}
				case "CloseChan":
					t := e.Args[0]
					if t.Op == OpLoad && t.Args[0].Op == OpFAddr && t.Args[0].FieldVar == ch.ready {
						c.ob(c.published(pt, ch, t.Args[0].Args[0], e.Seq), "publish", name+" (ready)", e.Pos, pt, "a batch is made ready outside of its publication")
					}
				}
			}
			if root == c.p.method("Server", "Broadcast") && complete(pt) {
				self := selfOf(root)
				se, sy := fieldCalled(c.r.Server, "StackExchange"), fieldCalled(c.r.Server, "SyncBroadcaster")
				if se == nil || sy == nil {
					continue
				}
				if pt.Facts.nilness(of(self, se)) == True && pt.Facts.eval(of(self, sy)) == False {
					routed++
					c.ob(n == 1, "routed", name, root.Pos(), pt, "a broadcast is published %d times", n)
					for _, e := range pt.Events {
						switch e.Kind {
						case "Send", "Recv", "Select", "CondWait", "WGWait", "Sleep", "Write":
							c.ob(false, "routed", name+" (waits)", e.Pos, pt, "publishing can wait: %s", e.Kind)
						}
					}
				} else {
					c.ob(n == 0, "routed", name+" (other modes)", root.Pos(), pt, "a broadcast is published to the list besides its own way")
				}
			}
		}
	}
	c.ob(routed > 0, "routed", "Server.Broadcast", token.NoPos, nil, "no broadcast is published to the list")
}

func (c *Chk) chainConfig(root *ssa.Function) Config {
	pubs := c.publishers()
	if root == c.p.method("Server", "Upgrade") {
		return Config{LoopMin: 1, Opaque: c.r.baseOpaque}
	}
	return c.offerConfig(root, pubs)
}

func (c *Chk) published(pt *Path, ch *chain, node *Term, seq int) bool {
	for _, e := range pt.Events {
		if e.Kind == "Store" && isAddrOf(e.Args[0], node, ch.msgs) {
			return true
		}
	}
	return false
}

// publication: one batch gets its messages.
func (c *Chk) publication(pt *Path, st *Event, ch *chain, node *Term, name string) {
	// whose pending batch
	var holder *Term
	var read *Event
	for _, e := range pt.Events {
		if e.Kind == "Load" && e.Seq < st.Seq && e.Res == node && e.Args[0].Op == OpFAddr && e.Args[0].FieldVar == ch.last {
			holder, read = e.Args[0].Args[0], e
		}
	}
	if !c.ob(read != nil, "publish", name+" (which)", st.Pos, pt, "messages are put on a batch that is not the pending one: %s", node) {
		return
	}
	var next, last, cl []*Event
	var fresh *Term
	for _, e := range pt.Events {
		if e.Kind == "Store" && isAddrOf(e.Args[0], node, ch.next) {
			next = append(next, e)
			fresh = e.Args[1]
		}
		if e.Kind == "Store" && isAddrOf(e.Args[0], holder, ch.last) {
			last = append(last, e)
		}
		if e.Kind == "CloseChan" && e.Args[0].any(func(t *Term) bool { return t == node }) {
			cl = append(cl, e)
		}
		if e.Kind == "Store" && isAddrOf(e.Args[0], node, ch.msgs) && e != st {
			c.ob(false, "publish", name+" (messages)", e.Pos, pt, "the messages of a batch are replaced")
		}
	}
	if !c.ob(len(next) == 1 && len(last) == 1 && len(cl) == 1, "publish", name+" (steps)", st.Pos, pt, "a batch gets its successor %d times, is replaced %d times and made ready %d times", len(next), len(last), len(cl)) {
		return
	}
	ok := fresh.Op == OpAlloc && last[0].Args[1] == fresh
	c.ob(ok, "publish", name+" (successor)", next[0].Pos, pt, "the pending batch after the publication is not the new successor of the published one")
	rd := c.fieldAt(pt, fresh, ch.ready, cl[0].Seq)
	c.ob(rd != nil && rd.Op == OpAlloc && rd.Sym == "makechan", "publish", name+" (new)", next[0].Pos, pt, "the successor is not a batch with a ready signal of its own")
	c.ob(isFieldOf(cl[0].Args[0], node, ch.ready), "publish", name+" (signal)", cl[0].Pos, pt, "the signal that is given is not the batch's own")
	c.ob(cl[0].Seq > next[0].Seq && cl[0].Seq > st.Seq, "publish", name+" (order)", cl[0].Pos, pt, "the batch is made ready before its messages and its successor are in place")
	lo, hi := read.Seq, last[0].Seq
	for _, e := range []*Event{st, next[0]} {
		if e.Seq > hi {
			hi = e.Seq
		}
	}
	// once it is replaced the batch is the publisher's own: it may be made ready after the critical section
	c.ob(heldThrough(pt, holder, lo, hi), "publish", name+" (lock)", read.Pos, pt, "the publication is not one critical section")
	if cl[0].Seq > hi {
		hi = cl[0].Seq
	}
	for _, e := range pt.Events {
		if e.Seq > lo && e.Seq < hi {
			switch e.Kind {
			case "Send", "Recv", "Select", "Invoke", "Dyn", "Write", "Offer", "Return":
				c.ob(false, "publish", name+" (waits)", e.Pos, pt, "a publication can wait or end half-way: %s", e.Kind)
			}
		}
	}
	// the messages are the ones given
	c.ob(st.Args[1].Op == OpParam || c.isMsgs(st.Args[1].Typ) && !st.Args[1].IsNil() && st.Args[1].Op != OpSlice, "publish", name+" (given)", st.Pos, pt, "the batch does not get the given messages: %s", st.Args[1])
}

// cursorRules: who waits on the chain.
func (c *Chk) cursorRules(ch *chain, pubs map[*ssa.Function]bool) {
	r := c.r
	up := c.p.method("Server", "Upgrade")
	if up == nil {
		c.ob(false, "anchor", "Server.Upgrade", token.NoPos, nil, "not found")
		return
	}
	fns := c.waitFns(ch, pubs)
	paths := c.explore(up, "Upgrade (waiters)", Config{LoopMin: 1, Opaque: func(fn *ssa.Function) string {
		if fns[fn] {
			return "Waiter"
		}
		return r.baseOpaque(fn)
	}})
	join, _ := c.srvChans()
	se, sy := fieldCalled(r.Server, "StackExchange"), fieldCalled(r.Server, "SyncBroadcaster")
	if se == nil || sy == nil {
		c.ob(false, "anchor", "Server.StackExchange, Server.SyncBroadcaster", token.NoPos, nil, "not found")
		return
	}
	srv := selfOf(up)
	waiters := map[*ssa.Function]bool{}
	for _, pt := range paths {
		conn := c.newConnOf(pt)
		if conn == nil {
			continue
		}
		var reg *Event
		for _, e := range pt.Events {
			if e.Kind == "Send" && e.Args[1] == conn && isFieldOf(e.Args[0], srv, join) {
				reg = e
			}
		}
		var ws []*Event
		for _, e := range pt.Events {
			if e.Kind == "Waiter" {
				c.ob(e.Gor != 0, "cursor", "Server.Upgrade (goroutine)", e.Pos, pt, "the upgrade itself waits for the broadcasts")
				ws = append(ws, e)
			}
			if e.Kind == "Go" && e.Fn != nil && fns[e.Fn] {
				ws = append(ws, e)
			}
		}
		if reg == nil {
			continue
		}
		async := pt.Facts.nilness(of(srv, se)) == True && pt.Facts.eval(of(srv, sy)) == False
		other := pt.Facts.nilness(of(srv, se)) == False || pt.Facts.eval(of(srv, sy)) == True
		if other {
			c.ob(len(ws) == 0, "cursor", "Server.Upgrade (other modes)", reg.Pos, pt, "the connection waits on the list besides its own way of delivery")
			continue
		}
		if !c.ob(async, "cursor", "Server.Upgrade (mode)", reg.Pos, pt, "the delivery mode is not looked at") {
			continue
		}
		if !c.ob(len(ws) == 1, "cursor", "Server.Upgrade", reg.Pos, pt, "%d goroutines wait for broadcasts for a registered connection", len(ws)) {
			continue
		}
		w := ws[0]
		var cur *Term
		has := false
		for _, a := range goValues(pt, w) {
			if a.Typ != nil && ptrTo(ch.node)(a.Typ) {
				cur = a
			}
			has = has || a == conn
		}
		c.ob(has, "cursor", "Server.Upgrade (connection)", w.Pos, pt, "the goroutine waits for another connection")
		var rd *Event
		for _, e := range pt.Events {
			if e.Kind == "Load" && e.Gor == 0 && cur != nil && e.Res == cur && e.Args[0].Op == OpFAddr && e.Args[0].FieldVar == ch.last {
				rd = e
			}
		}
		if c.ob(rd != nil && rd.Seq < reg.Seq, "cursor", "Server.Upgrade (start)", w.Pos, pt, "the pending batch is not read before the registration: broadcasts in between are lost") {
			c.ob(ownLock(rd, rd.Args[0].Args[0], false), "cursor", "Server.Upgrade (lock)", rd.Pos, pt, "the pending batch is read without the lock")
			c.ob(rd.Args[0].Args[0].any(func(t *Term) bool { return t == srv }), "cursor", "Server.Upgrade (list)", rd.Pos, pt, "the list is not the server's")
		}
		waiters[w.Fn] = true
	}
	c.ob(len(waiters) > 0, "anchor", "waiting goroutine", token.NoPos, nil, "not found")
	for _, f := range c.p.Funcs {
		if waiters[f] {
			c.waiterRules(ch, f, pubs)
		}
	}
}

// waitFns: the loops that wait on the chain and offer what they find.
func (c *Chk) waitFns(ch *chain, pubs map[*ssa.Function]bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range c.p.Funcs {
		if fnPkg(f) != c.p.Root || isTestFile(c.p, f) || f.Synthetic != "" || !hasLoop(c.p, f) {
			continue
		}
		waits := c.p.reaches(f, nil, func(in ssa.Instruction) bool {
			fa, ok := in.(*ssa.FieldAddr)
			return ok && fieldVarOf(fa) == ch.ready
		})
		offers := c.p.reaches(f, nil, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && pubs[ci.Common().StaticCallee()]
		})
		if waits && offers && !pubs[f] {
			out[f] = true
		}
	}
	return out
}

// goValues: what a started goroutine gets.
func goValues(pt *Path, e *Event) []*Term {
	var out []*Term
	for _, a := range e.Args {
		out = append(out, a)
		if a.Op == OpClosure {
			for _, b := range a.Args {
				out = append(out, b)
				if v := lastStore(pt, b, 1<<30); v != nil {
					out = append(out, v)
				}
			}
		}
	}
	return out
}

func (c *Chk) waiterRules(ch *chain, f *ssa.Function, pubs map[*ssa.Function]bool) {
	name := rel(c, f)
	cfg := c.offerConfig(f, pubs)
	for _, pt := range c.explore(f, "waiter:"+name, cfg) {
		var node, conn *Term // the batch in turn
		var ready *Event
		offers := 0
		ended := false
		for _, e := range pt.Events {
			switch e.Kind {
			case "Recv", "Select":
				if e.Kind == "Select" {
					sig, end := false, false
					for _, a := range e.Args {
						if v, o := chanField(a); v == ch.ready && o != nil {
							sig = true
						} else if c.isCloseCh(a) {
							end = true
						}
					}
					c.ob(sig && end, "waiter", name+" (released)", e.Pos, pt, "the wait does not end with the connection")
					continue
				}
				v, o := chanField(e.Args[0])
				if v == ch.ready {
					c.ob(e.Name == "select", "waiter", name+" (released)", e.Pos, pt, "the wait does not end with the connection")
					if node == nil {
						c.ob(o.Op == OpParam || o.Op == OpLoad && o.Args[0].Op != OpFAddr, "waiter", name+" (first)", e.Pos, pt, "the first batch is not the one that the goroutine was given: %s", o)
					} else {
						c.ob(offers == 1, "waiter", name+" (once)", e.Pos, pt, "the messages of a batch are offered %d times", offers)
						ok := c.isNextOf(pt, ch, o, node, ready.Seq)
						c.ob(ok, "waiter", name+" (next)", e.Pos, pt, "the goroutine does not go on to the successor of the batch: %s after %s", o, node)
					}
					node, ready, offers = o, e, 0
				} else if c.isCloseCh(e.Args[0]) {
					ended = true
				} else {
					c.ob(false, "waiter", name+" (other)", e.Pos, pt, "the goroutine waits for something else")
				}
			case "Offer":
				offers++
				var list *Term
				for _, a := range e.Args {
					if c.isMsgs(a.Typ) {
						list = a
					}
					if c.isConnPtr(a.Typ) {
						conn = a
					}
				}
				ok := node != nil && list != nil && list.Op == OpLoad && isAddrOf(list.Args[0], node, ch.msgs)
				after := false
				for _, g := range pt.Events {
					if g.Kind == "Load" && g.Res == list && node != nil && isAddrOf(g.Args[0], node, ch.msgs) && g.Seq > ready.Seq {
						after = true
					}
				}
				c.ob(ok && after, "waiter", name+" (messages)", e.Pos, pt, "what is offered are not the messages of the batch, read after it was ready")
				c.ob(conn != nil && (conn.Op == OpParam || conn.Op == OpLoad), "waiter", name+" (connection)", e.Pos, pt, "offered to another connection")
				if pt.Facts.is(e.Res, false) {
					ended = true
				}
				c.ob(pt.Facts.is(e.Res, false) || pt.Facts.is(e.Res, true), "waiter", name+" (result)", e.Pos, pt, "whether the connection is closed is not looked at")
			case "Send":
				c.ob(false, "waiter", name+" (sends)", e.Pos, pt, "the goroutine can be held up by a send")
			}
		}
		if complete(pt) && !ended {
			// that the successor is set when a batch is ready is the publisher's
			// rule: finding none cannot happen
			for _, e := range pt.Events {
				if e.Kind == "Load" && node != nil && e.Seq > ready.Seq && isAddrOf(e.Args[0], node, ch.next) {
					ended = ended || pt.Facts.isNil(e.Res)
					for t, v := range pt.Facts.nonnil {
						if v < 0 && unwound(t) == e.Res {
							ended = true
						}
					}
				}
			}
			for _, p := range f.Params {
				if node == nil && namedOf(p.Type()) == ch.node && pt.Facts.isNil(TT.mk(OpParam, p.Name(), p.Type())) {
					ended = true
				}
			}
		}
		if complete(pt) {
			c.ob(ended, "waiter", name+" (ends)", f.Pos(), pt, "the goroutine ends although the connection did not")
		} else if pt.Outcome == "loop" && node != nil {
			c.ob(offers == 1, "waiter", name+" (once)", f.Pos(), pt, "the messages of a batch are offered %d times", offers)
		}
	}
}

// chanField: the channel is held in a field; gives field and owner.
func chanField(t *Term) (*types.Var, *Term) {
	if t != nil && t.Op == OpLoad && t.Args[0].Op == OpFAddr {
		return t.Args[0].FieldVar, t.Args[0].Args[0]
	}
	return nil, nil
}

func (c *Chk) isCloseCh(t *Term) bool {
	v, o := chanField(t)
	return v != nil && v == c.r.closeCh && o != nil
}

func (c *Chk) isNextOf(pt *Path, ch *chain, n, node *Term, seq int) bool {
	for _, e := range pt.Events {
		if e.Kind == "Load" && e.Seq > seq && isAddrOf(e.Args[0], node, ch.next) && (e.Res == n || e.Res == unwound(n)) {
			return true
		}
	}
	return false
}

package main

// C25: an event reaches its own handler.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C25"] = checkC25 }

// evTable: the events belong to the namespace object.
func (c *Chk) evTable(pt *Path, f fire) bool {
	if f.events == nil || f.ns == nil {
		return false
	}
	if isFieldOf(f.events, f.ns, c.r.nsEvents) {
		return true
	}
	return c.fieldAt(pt, f.ns, c.r.nsEvents, f.ev.Seq) == f.events
}

var specialEvents = []string{"OnNamespaceConnect", "OnNamespaceConnected", "OnNamespaceDisconnect", "OnRoomJoin", "OnRoomJoined", "OnRoomLeave", "OnRoomLeft"}

func checkC25(c *Chk) {
	r := c.r
	c.rule("dispatcher", "the dispatcher calls, at most once, the handler found under exactly the message's event, or the one for any event when there is none, with the namespace and message it was given, returns its verdict, and calls nobody when there is neither")
	c.rule("own-table", "every dispatch uses the event table of the namespace object it dispatches to")
	c.rule("unchanged", "an incoming ordinary message is given to the namespace it names, with its event, room, body, error and token as decoded")
	c.rule("once", "an incoming ordinary message of a connected namespace is dispatched exactly once unless it answers an ask; one of a namespace that is not connected never")
	c.rule("invalid", "a message marked invalid is never dispatched")
	c.rule("not-local", "nothing received from the remote side is presented as local")
	c.rule("local", "the callbacks of an operation this side asked for are told that it is local")
	c.rule("native", "on a native-only connection every message becomes a native message and goes to the handler of the empty namespace, once")
	c.rule("verdict", "the error of the handler is what handling the payload returns")
	// the dispatcher itself
	for _, f := range c.p.Funcs {
		if fnPkg(f) != c.p.Root || isTestFile(c.p, f) || !r.dispatcher(f) {
			continue
		}
		c.dispatcherPaths(f)
	}
	c.need("dispatcher", 3)
	// who dispatches
	isDisp := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := ci.Common().StaticCallee()
		return g != nil && r.dispatcher(g) && !r.isDispatcher(in.Parent())
	}
	roots := c.rootsFor(isDisp)
	if cl := c.p.method("Conn", "Close"); cl != nil {
		roots = append(roots, cl)
	}
	h := c.p.method("Conn", "HandlePayload")
	if h == nil {
		c.ob(false, "anchor", "Conn.HandlePayload", token.NoPos, nil, "not found")
		return
	}
	seen := false
	for _, root := range roots {
		seen = seen || root == h
		cfg := c.rootConfig(root)
		for _, pt := range c.explore(root, "root:"+root.Name(), cfg) {
			for _, f := range c.fires(pt) {
				c.ob(c.evTable(pt, f), "own-table", c.fnName(f.ev), f.ev.Pos, pt, "the event table %s is not that of the namespace object", f.events)
			}
			if root == h {
				c.incoming(pt, root)
				continue
			}
			for _, f := range c.fires(pt) {
				c.ob(f.msg != nil && pt.Facts.is(mf(f.msg, r.mLocal), true), "local", c.fnName(f.ev)+" from "+rel(c, root), f.ev.Pos, pt, "what this side asked for itself is presented as the remote side's")
			}
		}
	}
	c.ob(seen, "anchor", "Conn.HandlePayload (dispatch)", token.NoPos, nil, "it dispatches nothing")
	c.covered("own-table", isDisp)
	// handlers called directly
	for _, f := range c.p.Funcs {
		if fnPkg(f) != c.p.Root || isTestFile(c.p, f) || r.isDispatcher(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() && ci.Common().StaticCallee() == nil {
					if _, bi := ci.Common().Value.(*ssa.Builtin); !bi && types.Identical(ci.Common().Value.Type().Underlying(), r.Handler.Underlying()) {
						// handlers wrapped by handlers (struct methods, joined ones) are judged there
						ok := f.Parent() != nil || types.Identical(f.Signature.Params(), r.Handler.Underlying().(*types.Signature).Params())
						c.ob(ok, "dispatcher", "direct call in "+rel(c, f), in.Pos(), nil, "a handler is called without being looked up by the dispatcher")
					}
				}
			}
		}
	}
	c.decodedRules()
	c.need("own-table", 4)
	c.need("unchanged", 1)
	c.need("once", 2)
	c.need("invalid", 1)
	c.need("not-local", 2)
	c.need("local", 8)
	c.need("native", 3)
}

func (c *Chk) dispatcherPaths(f *ssa.Function) {
	r := c.r
	var ns, msg, events *Term
	for i, p := range f.Params {
		switch {
		case ptrTo(r.NSConn)(p.Type()):
			ns = paramN(f, i)
		case types.Identical(p.Type(), r.Message):
			msg = paramN(f, i)
		case types.Identical(p.Type(), r.Events):
			events = paramN(f, i)
		}
	}
	name := rel(c, f)
	if events == nil {
		events = of(ns, r.nsEvents)
	}
	cfg := Config{Opaque: func(fn *ssa.Function) string {
		if fn == f || r.dispatcher(fn) {
			return ""
		}
		return r.baseOpaque(fn)
	}}
	for _, pt := range c.explore(f, "dispatcher", cfg) {
		var dyn []*Event
		for _, e := range pt.Events {
			if e.Kind == "Dyn" {
				dyn = append(dyn, e)
			}
			if e.Kind == "Go" || e.Kind == "Invoke" || e.Kind == "Call" || e.Kind == "Write" {
				c.ob(false, "dispatcher", name+" (other effects)", e.Pos, pt, "it does more than call the handler: %s %s", e.Kind, e.Name)
			}
		}
		if !complete(pt) {
			c.ob(pt.Outcome != "loop", "dispatcher", name+" (ends)", f.Pos(), pt, "it does not end")
			continue
		}
		own, any := Unknown, Unknown
		var ownV, anyV *Term
		for _, e := range pt.Events {
			if e.Kind != "MapGet" || e.Args[0] != events {
				continue
			}
			st := Unknown
			if present(pt, e) {
				st = True
			} else if absent(pt, e) {
				st = False
			}
			if e.Args[1] == mf(msg, r.mEvent) {
				own, ownV = st, e.Res.Args[0]
			} else if pt.Facts.eqStr(e.Args[1], c.evName("OnAnyEvent")) {
				any, anyV = st, e.Res.Args[0]
			}
		}
		switch len(dyn) {
		case 0:
			c.ob(own == False && any == False, "dispatcher", name+" (nobody)", f.Pos(), pt, "nobody is called although there may be a handler")
			c.ob(len(pt.Results) == 1 && pt.Results[0].IsNil(), "dispatcher", name+" (nobody)", f.Pos(), pt, "an error without a handler")
		case 1:
			d := dyn[0]
			ok := d.Args[0] == ownV && own == True || d.Args[0] == anyV && any == True && own == False
			c.ob(ok, "dispatcher", name+" (handler)", d.Pos, pt, "the handler called is not the one of the message's event, nor the any-event one in its absence: %s", d.Args[0])
			c.ob(len(d.Args) == 3 && d.Args[1] == ns && d.Args[2] == msg, "dispatcher", name+" (arguments)", d.Pos, pt, "the handler gets something else than the namespace and the message")
			c.ob(len(pt.Results) == 1 && d.Res != nil && pt.Results[0] == d.Res, "dispatcher", name+" (verdict)", d.Pos, pt, "the verdict of the handler is not what is returned: %v", pt.Results)
		default:
			c.ob(false, "dispatcher", name+" (once)", dyn[1].Pos, pt, "more than one handler call for a message")
		}
	}
}

func (c *Chk) incoming(pt *Path, root *ssa.Function) {
	r := c.r
	in := isReplyPath(pt)
	fires := c.fires(pt)
	self := selfOf(root)
	_, only := c.nativeFields()
	if in == nil {
		c.ob(len(fires) == 0, "unchanged", rel(c, root)+" (decoded)", root.Pos(), pt, "something is dispatched that was not decoded")
		return
	}
	native := pt.Facts.is(of(self, only), true) && pt.Facts.is(mf(in, r.mNative), true)
	ordinary := 0
	for _, f := range fires {
		c.ob(pt.Facts.is(mf(in, r.mInvalid), false), "invalid", c.fnName(f.ev), f.ev.Pos, pt, "an invalid message can be dispatched")
		if f.msg == nil {
			c.ob(false, "unchanged", c.fnName(f.ev), f.ev.Pos, pt, "a dispatch without a message")
			continue
		}
		l := mf(f.msg, r.mLocal)
		c.ob(l == mf(in, r.mLocal) || pt.Facts.is(l, false), "not-local", c.fnName(f.ev), f.ev.Pos, pt, "a received message is presented as local")
		if f.name != mf(in, r.mEvent) {
			continue // an event of this side; its occasions are judged by C02 to C04
		}
		special := false
		for _, s := range specialEvents {
			special = special || c.isEv(pt, f.name, s)
		}
		if special {
			continue
		}
		ordinary++
		key := mf(in, r.mNS)
		okNS := false
		if native {
			key = TT.Str("")
		}
		for _, g := range c.gets(pt, r.nsMap, self, key) {
			okNS = okNS || g.Res.Args[0] == f.ns && present(pt, g) && g.Seq < f.ev.Seq
		}
		c.ob(okNS, "unchanged", c.fnName(f.ev)+" (namespace)", f.ev.Pos, pt, "it is not given to the connected namespace that it names: %s", f.ns)
		for _, fv := range []*types.Var{r.mNS, r.mRoom, r.mBody, r.mErr, r.mWait, r.mBinary, r.mNative, r.mFromSE} {
			c.ob(mf(f.msg, fv) == mf(in, fv), "unchanged", c.fnName(f.ev)+" ("+fv.Name()+")", f.ev.Pos, pt, "the handler sees %s instead of the received value", mf(f.msg, fv))
		}
	}
	if !complete(pt) {
		return
	}
	if pt.Facts.is(mf(in, r.mInvalid), true) {
		n := 0
		for _, e := range pt.Events {
			if isEffect(e) {
				n++
			}
		}
		c.ob(n == 0, "invalid", rel(c, root)+" (dropped)", root.Pos(), pt, "an invalid message has effects")
		return
	}
	delivered := false
	for _, e := range pt.Events {
		if e.Kind == "Send" || e.Kind == "Select" || e.Kind == "Invoke" && e.Typ != nil && types.Identical(e.Typ, r.StackEx) && e.Name == "neffos.StackExchange.NotifyAsk" {
			delivered = true
		}
	}
	if delivered {
		c.ob(len(fires) == 0, "once", rel(c, root)+" (answers)", root.Pos(), pt, "an answer is dispatched as an event too")
		return
	}
	if native {
		found := False
		for _, g := range c.gets(pt, r.nsMap, self, TT.Str("")) {
			if present(pt, g) {
				found = True
			}
		}
		c.ob(ordinary == 1 && len(fires) == 1 || found == False && len(fires) == 0, "native", rel(c, root), root.Pos(), pt, "a native message is dispatched %d times", len(fires))
		return
	}
	special := Unknown
	all := true
	for _, s := range specialEvents {
		if c.isEv(pt, mf(in, r.mEvent), s) {
			special = True
		} else if !c.notEv(pt, mf(in, r.mEvent), s) {
			all = false
		}
	}
	if special == True {
		c.ob(ordinary == 0, "once", rel(c, root)+" (system events)", root.Pos(), pt, "a system event is dispatched as an ordinary one")
		return
	}
	if all {
		special = False
	}
	if special == Unknown {
		// the path ended before the event was looked at: an answer nobody waits for, or a refusal
		c.ob(len(fires) == 0, "once", rel(c, root)+" (undecided event)", root.Pos(), pt, "something is dispatched without looking at the event")
		c.ob(c.dropAllowed(pt, in), "once", rel(c, root)+" (dropped)", root.Pos(), pt, "a message can be dropped without looking at its event although it answers nothing")
		return
	}
	st := Unknown
	for _, g := range c.gets(pt, r.nsMap, self, mf(in, r.mNS)) {
		if present(pt, g) {
			st = True
		} else if absent(pt, g) && st != True {
			st = False
		}
	}
	switch st {
	case True:
		c.ob(ordinary == 1, "once", rel(c, root)+" (connected)", root.Pos(), pt, "an ordinary message is dispatched %d times", ordinary)
		if ordinary == 1 && len(pt.Results) == 1 {
			for _, f := range fires {
				if f.name == mf(in, r.mEvent) && f.res != nil {
					switch pt.Facts.nilness(f.res) {
					case False:
						c.ob(pt.Results[0] == f.res, "verdict", rel(c, root), root.Pos(), pt, "the handler's error is not returned: %s", pt.Results[0])
					case True:
						c.ob(pt.Results[0].IsNil() || pt.Results[0] == f.res, "verdict", rel(c, root), root.Pos(), pt, "an error although the handler had none: %s", pt.Results[0])
					default:
						c.ob(pt.Results[0] == f.res, "verdict", rel(c, root), root.Pos(), pt, "the handler's verdict is not returned: %s", pt.Results[0])
					}
				}
			}
		}
	default:
		c.ob(len(fires) == 0, "once", rel(c, root)+" (not connected)", root.Pos(), pt, "a message of a namespace that is not connected is dispatched")
		c.ob(st == False, "once", rel(c, root)+" (looked up)", root.Pos(), pt, "a message is dropped without looking for its namespace")
	}
}

// dropAllowed: the message carries an answer token.
func (c *Chk) dropAllowed(pt *Path, in *Term) bool {
	w := mf(in, c.r.mWait)
	if pt.Facts.eqStr(w, "") {
		return false
	}
	if pt.Facts.neStr(w, "") {
		return true
	}
	for _, g := range pt.Events {
		if g.Kind == "MapGet" && (mapOwner(g.Args[0], c.r.connWait) != nil || mapOwner(g.Args[0], c.r.srvWait) != nil) && g.Args[1] == w {
			return true
		}
	}
	return false
}

// decodedRules: what the decoder says about locality and native messages.
func (c *Chk) decodedRules() {
	r := c.r
	d := c.p.fn("DeserializeMessage")
	if d == nil || len(d.Params) != 4 {
		c.ob(false, "anchor", "DeserializeMessage", token.NoPos, nil, "not found")
		return
	}
	body, allow, only := paramN(d, 1), paramN(d, 2), paramN(d, 3)
	cfg := c.except("Decode")
	seen := 0
	for _, pt := range c.explore(d, "decode", cfg) {
		if !complete(pt) || len(pt.Results) != 1 {
			continue
		}
		m := pt.Results[0]
		c.ob(pt.Facts.is(mf(m, r.mLocal), false), "not-local", rel(c, d), d.Pos(), pt, "the decoder marks a message as local: %s", mf(m, r.mLocal))
		c.ob(pt.Facts.is(mf(m, r.mForced), false), "not-local", rel(c, d)+" (forced)", d.Pos(), pt, "the decoder marks a message as forced: %s", mf(m, r.mForced))
		isNative := pt.Facts.is(mf(m, r.mNative), true)
		if nt := pt.Facts.clone(); nt.assume(mf(m, r.mNative), true) {
			np := &Path{Facts: nt}
			c.ob(c.isEv(np, settled(nt, mf(m, r.mEvent)), "OnNativeMessage"), "native", rel(c, d)+" (event)", d.Pos(), pt, "a native message has another event: %s", mf(m, r.mEvent))
			c.ob(nt.is(mf(m, r.mInvalid), false), "native", rel(c, d)+" (valid)", d.Pos(), pt, "a native message is marked invalid")
			c.ob(!nt.is(allow, false) || nt.is(only, true), "native", rel(c, d)+" (allowed)", d.Pos(), pt, "a native message although none is allowed")
		}
		// native only
		if !pt.Facts.is(only, false) {
			t := pt.Facts.clone()
			if t.assume(only, true) && t.assume(allow, true) {
				seen++
				if lenZero(pt, body) {
					continue
				}
				c.ob(noConv(mf(m, r.mBody)) == body || mf(m, r.mBody) == body, "native", rel(c, d)+" (body)", d.Pos(), pt, "a native message's body is not the payload: %s", mf(m, r.mBody))
				c.ob(isNative, "native", rel(c, d)+" (native only)", d.Pos(), pt, "on a native-only connection a message is not decoded as native")
			}
		}
	}
	c.ob(seen > 0, "native", rel(c, d)+" (native only)", d.Pos(), nil, "the decoder does not depend on the native-only switch")
}

// settled: a string function whose arguments are known to equal constants.
func settled(f *Facts, t *Term) *Term {
	if t == nil || t.Op != OpPure {
		return t
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = a
		if k, ok := f.eq[a]; ok {
			args[i] = k
		} else if k, ok := f.eq[noConv(a)]; ok {
			args[i] = k
		}
	}
	if v := foldStr(t.Sym, args); v != nil {
		return v
	}
	return t
}

package main

// C17: the server drives its scale-out backends.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C17"] = checkC17 }

// seCall: the event calls the method of a StackExchange.
func seCall(e *Event, method string) bool {
	return e.Kind == "Invoke" && e.Name == "neffos.StackExchange."+method
}

func checkC17(c *Chk) {
	r := c.r
	c.rule("announced", "with a backend every created connection is announced to it exactly once, before the registration and before the server's connect callback, and never without one")
	c.rule("admission", "a connection that the backend or the callback refused is never accepted, its refusal is returned and told to the client")
	c.rule("subscribed", "on a server with a backend every namespace that becomes a membership is subscribed to exactly once for that connection, after it is in effect; otherwise nothing is subscribed to")
	c.rule("unsubscribed", "on a server with a backend every namespace that a live connection is disconnected from is unsubscribed from exactly once, after its removal; otherwise nothing is")
	c.rule("told-off", "the server's loop tells the backend of every removed connection (all of its namespaces) once")
	c.rule("routed", "with a backend a broadcast is published to it once and goes nowhere else, and a server's question is asked through it and its answer returned")
	c.rule("wrapper", "several backends: each operation is forwarded to both with unchanged arguments; a publish succeeds only if both do, a connection is accepted only if both accept, and a question or notification is tried on the second when the first fails")
	c.rule("used", "a backend whose initialisation failed is not used; another backend is added to the one in use and does not replace it")
	se := fieldCalled(r.Server, "StackExchange")
	onConn := fieldCalled(r.Server, "OnConnect")
	join, _ := c.srvChans()
	_, only := c.nativeFields()
	srvClosed := c.srvClosedVar()
	if se == nil || onConn == nil || join == nil || only == nil || srvClosed == nil {
		c.ob(false, "anchor", "Server fields", token.NoPos, nil, "StackExchange or OnConnect not found")
		return
	}
	// announcement
	up, paths := c.upgradePaths()
	srv := selfOf(up)
	for _, pt := range paths {
		conn := c.newConnOf(pt)
		n := 0
		var reg, cb *Event
		for _, e := range pt.Events {
			switch {
			case seCall(e, "OnConnect"):
				n++
				c.ob(e.Gor == 0 && len(e.Args) == 2 && e.Args[1] == conn && conn != nil && isFieldOf(e.Args[0], srv, se), "announced", "Server.Upgrade (which)", e.Pos, pt, "another connection is announced, or to another backend")
				c.ob(reg == nil && cb == nil, "announced", "Server.Upgrade (first)", e.Pos, pt, "the connection is announced after its registration or its connect callback")
				// what the backend may need
				for _, fv := range []*types.Var{r.connID, r.connServer} {
					v := c.fieldAt(pt, conn, fv, e.Seq)
					c.ob(v != nil && !pt.Facts.isNil(v), "announced", "Server.Upgrade ("+fv.Name()+")", e.Pos, pt, "the connection is announced without its %s", fv.Name())
				}
			case e.Kind == "Send" && isFieldOf(e.Args[0], srv, join):
				reg = e
			case c.dynField(e, srv, "OnConnect"):
				cb = e
			}
		}
		if conn == nil {
			c.ob(n == 0, "announced", "Server.Upgrade (none)", up.Pos(), pt, "a connection is announced that does not exist")
			continue
		}
		if reg != nil {
			has := pt.Facts.nilness(of(srv, se))
			c.ob(has == False && n == 1 || has == True && n == 0, "announced", "Server.Upgrade", reg.Pos, pt, "the connection is announced to the backend %d times", n)
		}
		c.admission(pt, up, srv, conn, only, srvClosed)
	}
	c.subscriptions(se)
	c.toldOff(se)
	c.seRouted(se)
	c.wrapperRules()
	c.useRules(se)
	c.need("announced", 3)
	c.need("admission", 4)
	c.need("subscribed", 3)
	c.need("unsubscribed", 3)
	c.need("told-off", 1)
	c.need("routed", 2)
	c.need("wrapper", 7)
	c.need("used", 3)
}

// subscriptions: follow the memberships.
func (c *Chk) subscriptions(se *types.Var) {
	r := c.r
	k := c.nsKind()
	pr := c.mutates(k.elem, true, true)
	reach := map[*ssa.Function]bool{}
	roots := c.rootsFor(pr)
	for _, f := range roots {
		reach[f] = true
	}
	seUse := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && ci.Common().IsInvoke() && namedOf(ci.Common().Value.Type()) == r.StackEx && (ci.Common().Method.Name() == "Subscribe" || ci.Common().Method.Name() == "Unsubscribe")
	}
	for _, f := range c.rootsFor(seUse) {
		if !reach[f] && !c.isWrapper(f) {
			roots = append(roots, f)
		}
	}
	isClose := c.p.method("Conn", "Close")
	for _, root := range roots {
		name := rel(c, root)
		for _, pt := range c.explore(root, "root:"+root.Name(), c.rootConfig(root)) {
			var subs, uns []*Event
			used := map[*Event]bool{}
			for _, e := range pt.Events {
				if seCall(e, "Subscribe") {
					subs = append(subs, e)
				}
				if seCall(e, "Unsubscribe") {
					uns = append(uns, e)
				}
			}
			for _, e := range pt.Events {
				set := e.Kind == "MapSet"
				if !set && e.Kind != "MapDel" || mapOwner(e.Args[0], k.fv) == nil {
					continue
				}
				conn := mapOwner(e.Args[0], k.fv)
				if rootOf(conn).Op == OpAlloc {
					continue
				}
				if !set && root == isClose {
					continue // the backend is told of the connection as a whole
				}
				calls, rule, what := uns, "unsubscribed", "removed"
				if set {
					calls, rule, what = subs, "subscribed", "new"
				}
				if set && pt.Facts.is(of(conn, only(c)), true) {
					rule = "subscribed"
				}
				n := 0
				for _, x := range calls {
					if len(x.Args) == 3 && x.Args[1] == conn && sameStr(pt, x.Args[2], e.Args[1]) && x.Seq > e.Seq && !used[x] && n == 0 {
						n++
						used[x] = true
						c.ob(isFieldOf(x.Args[0], of(conn, r.connServer), se), rule, name+" (backend)", x.Pos, pt, "another backend than the server's is told")
						c.ob(x.Gor == 0, rule, name+" (at once)", x.Pos, pt, "the backend is told in the background, possibly out of order")
					}
				}
				has := pt.Facts.nilness(of(of(conn, r.connServer), se))
				side := c.side(pt, conn)
				if n == 0 && !complete(pt) && pt.Outcome != "panic" {
					// cut inside the loop: judged by its siblings
					if n := len(pt.Events); pt.Events[n-1].Kind == "LoopBack" {
						continue
					}
				}
				c.ob(n == 1 && side == 1 && has == False || n == 0 && (side == -1 || has == True), rule, name, e.Pos, pt, "the backend is told %d times of a %s namespace", n, what)
			}
			for _, x := range append(subs, uns...) {
				rule := "subscribed"
				if seCall(x, "Unsubscribe") {
					rule = "unsubscribed"
				}
				c.ob(used[x], rule, name+" (in effect)", x.Pos, pt, "the backend is told of a namespace that is not a membership (any more), before the change is in effect, or twice")
			}
		}
	}
	c.covered("subscribed", func(in ssa.Instruction) bool { return seUse(in) && !c.isWrapper(in.Parent()) })
}

func only(c *Chk) *types.Var { _, o := c.nativeFields(); return o }

// isWrapper: a method of a type that holds backends itself, or a helper of such methods only.
func (c *Chk) isWrapper(f *ssa.Function) bool {
	return c.wrapperOr(f, map[*ssa.Function]bool{})
}

func (c *Chk) wrapperOr(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if c.wrapperMethod(f) {
		return true
	}
	if seen[f] || f.Object() != nil && f.Object().Exported() {
		return seen[f]
	}
	seen[f] = true
	callers := 0
	for _, g := range c.p.Funcs {
		for _, h := range c.p.staticRefs(g) {
			if h != f || g == f {
				continue
			}
			callers++
			if !c.wrapperOr(g, seen) {
				return false
			}
		}
	}
	return callers > 0
}

func (c *Chk) wrapperMethod(f *ssa.Function) bool {
	if f.Signature.Recv() == nil {
		return false
	}
	n := namedOf(f.Signature.Recv().Type())
	return n != nil && n != c.r.Server && n != c.r.Conn && c.implements(n)
}

func (c *Chk) implements(n *types.Named) bool {
	it, ok := c.r.StackEx.Underlying().(*types.Interface)
	return ok && (types.Implements(n, it) || types.Implements(types.NewPointer(n), it))
}

func (c *Chk) toldOff(se *types.Var) {
	for _, f := range c.srvLoops() {
		self := readerConn(f)
		name := rel(c, f)
		for _, pt := range c.explore(f, "registry:"+f.Name(), c.offerConfig(f, c.publishers())) {
			for _, t := range turns(pt) {
				var del *Event
				n := 0
				for _, e := range pt.Events {
					if e.Seq <= t.from || e.Seq >= t.to {
						continue
					}
					if e.Kind == "MapDel" && mapOwner(e.Args[0], c.r.connections) == self {
						del = e
					}
					if seCall(e, "OnDisconnect") {
						n++
						c.ob(len(e.Args) == 2 && e.Args[1] == t.got && isFieldOf(e.Args[0], self, se), "told-off", name+" (which)", e.Pos, pt, "the backend is told of another connection")
					}
				}
				if del == nil {
					c.ob(n == 0, "told-off", name+" (unknown)", t.recv.Pos, pt, "the backend is told of a connection that was not removed")
				} else if t.over(pt) {
					c.ob(n == 1 || n == 0 && pt.Facts.nilness(of(self, se)) == True, "told-off", name, del.Pos, pt, "the backend is told of a removed connection %d times", n)
				}
			}
		}
	}
}

// seRouted: broadcasts and questions with a backend.
func (c *Chk) seRouted(se *types.Var) {
	r := c.r
	if f := c.p.method("Server", "Broadcast"); f != nil {
		self := selfOf(f)
		for _, pt := range c.explore(f, "Server.Broadcast", Config{LoopMin: 1, Opaque: r.baseOpaque}) {
			if !complete(pt) {
				continue
			}
			has := pt.Facts.nilness(of(self, se))
			n, other := 0, 0
			for _, e := range pt.Events {
				if seCall(e, "Publish") {
					n++
					c.ob(e.Gor == 0 && isFieldOf(e.Args[0], self, se), "routed", "Server.Broadcast (which)", e.Pos, pt, "published elsewhere or in the background")
				} else if c.handoff(e) != nil {
					other++
				}
			}
			c.ob(has == False && n == 1 && other == 0 || has == True && n == 0, "routed", "Server.Broadcast", f.Pos(), pt, "with a backend a broadcast is published %d times to it and %d times elsewhere", n, other)
		}
	}
	if f := c.p.method("Server", "Ask"); f != nil {
		self := selfOf(f)
		for _, pt := range c.explore(f, "Server.Ask", c.except("Ask")) {
			if !complete(pt) {
				continue
			}
			has := pt.Facts.nilness(of(self, se))
			var asks []*Event
			for _, e := range pt.Events {
				if seCall(e, "Ask") {
					asks = append(asks, e)
				}
				if has == False {
					c.ob(c.handoff(e) == nil, "routed", "Server.Ask (elsewhere)", e.Pos, pt, "a question is published besides the backend's own way")
				}
			}
			if has == True {
				c.ob(len(asks) == 0, "routed", "Server.Ask (none)", f.Pos(), pt, "a missing backend is asked")
				continue
			}
			if !c.ob(has == False && len(asks) == 1, "routed", "Server.Ask", f.Pos(), pt, "the backend is asked %d times", len(asks)) {
				continue
			}
			a := asks[0]
			msg := c.argOf(a, c.isMsg)
			tok := a.Args[len(a.Args)-1]
			c.ob(msg != nil && sameStr(pt, mf(msg, r.mWait), tok), "routed", "Server.Ask (token)", a.Pos, pt, "the question does not carry the token that is waited for")
			ok := len(pt.Results) == 2 && a.Res.Op == OpTuple && sameMsg2(pt.Results[0], a.Res.Args[0]) && pt.Results[1] == a.Res.Args[1]
			c.ob(ok, "routed", "Server.Ask (answer)", a.Pos, pt, "the answer of the backend is not what is returned")
		}
	}
}

func sameMsg2(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || a.Op != OpStruct || b == nil {
		return false
	}
	st, ok := a.Typ.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if mf(a, st.Field(i)) != mf(b, st.Field(i)) {
			return false
		}
	}
	return true
}

// wrapperRules: the type that holds two backends.
func (c *Chk) wrapperRules() {
	var wrap *types.Named
	var parts []*types.Var
	sc := c.p.Root.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok || nt == c.r.StackEx || nt == c.r.Server || !c.implements(nt) {
			continue
		}
		fs := structField(nt, same(c.r.StackEx))
		if len(fs) == 2 {
			wrap, parts = nt, fs
		} else {
			c.ob(len(fs) == 0, "wrapper", nt.Obj().Name(), tn.Pos(), nil, "holds %d backends", len(fs))
		}
	}
	if !c.ob(wrap != nil, "anchor", "backend wrapper", token.NoPos, nil, "no type that holds two backends found") {
		return
	}
	it := c.r.StackEx.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		f := c.p.method(wrap.Obj().Name(), m.Name())
		if !c.ob(f != nil, "wrapper", m.Name(), token.NoPos, nil, "not found") {
			continue
		}
		self := selfOf(f)
		for _, pt := range c.explore(f, "wrapper:"+m.Name(), c.base()) {
			if !complete(pt) {
				continue
			}
			calls := map[*types.Var][]*Event{}
			for _, e := range pt.Events {
				if e.Kind != "Invoke" {
					continue
				}
				for _, fv := range parts {
					if isFieldOf(e.Args[0], self, fv) {
						calls[fv] = append(calls[fv], e)
						same := seCall(e, m.Name()) && len(e.Args) == len(f.Params) && e.Gor == 0
						for j := 1; same && j < len(f.Params); j++ {
							same = e.Args[j] == TT.mk(OpParam, f.Params[j].Name(), f.Params[j].Type())
						}
						c.ob(same, "wrapper", m.Name()+" (forwards)", e.Pos, pt, "the operation is forwarded as %s with other arguments or in the background", e.Name)
					}
				}
			}
			a, b := calls[parts[0]], calls[parts[1]]
			// the one that is called first
			if len(b) > 0 && (len(a) == 0 || b[0].Seq < a[0].Seq) {
				a, b = b, a
			}
			each := len(a) == 1 && len(b) == 1
			if !c.ob(len(a) == 1 && len(b) <= 1, "wrapper", m.Name()+" (once)", f.Pos(), pt, "forwarded %d and %d times", len(a), len(b)) {
				continue
			}
			f0 := pt.Facts
			switch res := f.Signature.Results(); {
			case m.Name() == "OnConnect":
				r0 := pt.Results[0]
				switch f0.nilness(a[0].Res) {
				case False:
					c.ob(f0.nilness(r0) == False, "wrapper", m.Name(), f.Pos(), pt, "the refusal of one backend is not returned")
				case True:
					c.ob(each && (r0 == b[0].Res || f0.isNil(b[0].Res) && f0.isNil(r0)), "wrapper", m.Name(), f.Pos(), pt, "the connection is accepted without the second backend")
				default:
					c.ob(false, "wrapper", m.Name(), f.Pos(), pt, "whether the first backend accepts is not looked at")
				}
			case res.Len() == 0:
				c.ob(each, "wrapper", m.Name(), f.Pos(), pt, "not forwarded to every backend")
			case res.Len() == 1 && isBoolT(res.At(0).Type()):
				if c.ob(each, "wrapper", m.Name(), f.Pos(), pt, "not forwarded to every backend") {
					r0 := pt.Results[0]
					want := mkAnd3(f0.eval(a[0].Res), f0.eval(b[0].Res))
					got := f0.eval(r0)
					if got == Unknown {
						// the result is one of the two and the other succeeded
						ok := r0 == b[0].Res && f0.eval(a[0].Res) == True || r0 == a[0].Res && f0.eval(b[0].Res) == True || isConj(r0, a[0].Res, b[0].Res)
						c.ob(ok, "wrapper", m.Name()+" (result)", f.Pos(), pt, "it succeeds although a backend failed, or the other way round")
					} else {
						c.ob(got == want, "wrapper", m.Name()+" (result)", f.Pos(), pt, "it succeeds although a backend failed, or the other way round")
					}
				}
			default:
				// an answer or an error
				errOf := func(e *Event) *Term {
					if e.Res.Op == OpTuple {
						return e.Res.Args[len(e.Res.Args)-1]
					}
					return e.Res
				}
				last := pt.Results[len(pt.Results)-1]
				switch f0.nilness(errOf(a[0])) {
				case True:
					ok := len(b) == 0 && f0.isNil(last)
					if len(pt.Results) == 2 {
						ok = ok && sameMsg2(pt.Results[0], a[0].Res.Args[0])
					}
					c.ob(ok, "wrapper", m.Name()+" (first)", f.Pos(), pt, "the success of the first backend is not returned, or the second one is bothered")
				case False:
					ok := each && (last == errOf(b[0]) || f0.isNil(last) && f0.isNil(errOf(b[0])))
					if ok && len(pt.Results) == 2 {
						ok = sameMsg2(pt.Results[0], b[0].Res.Args[0])
					}
					c.ob(ok, "wrapper", m.Name()+" (second)", f.Pos(), pt, "the second backend is not tried, or its answer not returned, when the first fails")
				default:
					c.ob(false, "wrapper", m.Name(), f.Pos(), pt, "whether the first backend failed is not looked at")
				}
			}
		}
	}
}

func mkAnd3(a, b Tri) Tri {
	if a == False || b == False {
		return False
	}
	if a == True && b == True {
		return True
	}
	return Unknown
}

func isConj(t, a, b *Term) bool {
	return t.Op == OpBin && (t.Sym == "&" || t.Sym == "&&") && (t.Args[0] == a && t.Args[1] == b || t.Args[0] == b && t.Args[1] == a)
}

// useRules: how a backend comes into use.
func (c *Chk) useRules(se *types.Var) {
	f := c.p.method("Server", "UseStackExchange")
	if !c.ob(f != nil && len(f.Params) == 2, "anchor", "Server.UseStackExchange", token.NoPos, nil, "not found") {
		return
	}
	self, exc := selfOf(f), TT.mk(OpParam, f.Params[1].Name(), f.Params[1].Type())
	name := "Server.UseStackExchange"
	for _, pt := range c.explore(f, "UseStackExchange", c.base()) {
		if !complete(pt) {
			continue
		}
		var init []*Event
		var sets []*Event
		canInit := Unknown
		for _, e := range pt.Events {
			if e.Kind == "Invoke" && e.Name == "neffos.StackExchangeInitializer.Init" {
				init = append(init, e)
			}
			if e.Kind == "Store" && isAddrOf(e.Args[0], self, se) {
				sets = append(sets, e)
			}
		}
		for a, v := range pt.Facts.b {
			if a.Op == OpAssertOK && a.Args[0] == exc {
				canInit = tri(v)
			}
		}
		if pt.Facts.isNil(exc) {
			c.ob(len(sets) == 0, "used", name+" (none)", f.Pos(), pt, "no backend is used as one")
			continue
		}
		c.ob(canInit == True && len(init) == 1 || canInit == False && len(init) == 0, "used", name+" (initialised)", f.Pos(), pt, "a backend that can be initialised is initialised %d times", len(init))
		if len(init) == 1 {
			c.ob(init[0].Args[0].any(func(t *Term) bool { return t == exc }) && init[0].Args[1].any(func(t *Term) bool { return t == self }), "used", name+" (with)", init[0].Pos, pt, "it is initialised with other namespaces than the server's")
			if n := pt.Facts.nilness(init[0].Res); n != True {
				c.ob(n == False && len(sets) == 0 && pt.Results[0] == init[0].Res, "used", name+" (failed)", f.Pos(), pt, "a backend whose initialisation failed is used, or the error is not returned")
				continue
			}
		}
		if !c.ob(len(sets) == 1 && pt.Facts.isNil(pt.Results[0]), "used", name+" (once)", f.Pos(), pt, "the backend is put in use %d times", len(sets)) {
			continue
		}
		v := sets[0].Args[1]
		switch pt.Facts.nilness(of(self, se)) {
		case True:
			c.ob(v == exc, "used", name+" (only)", sets[0].Pos, pt, "the first backend is not used as it is")
		case False:
			has := func(want *Term) bool {
				obj := v
				if obj.Op == OpIface {
					obj = obj.Args[0]
				}
				for _, e := range pt.Events {
					if e.Kind == "Store" && e.Args[0].Op == OpFAddr && e.Args[0].Args[0] == obj && e.Args[1] == want {
						return true
					}
				}
				return false
			}
			c.ob(has(exc) && has(of(self, se)), "used", name+" (both)", sets[0].Pos, pt, "another backend replaces the one in use")
		default:
			c.ob(false, "used", name+" (looked at)", sets[0].Pos, pt, "whether a backend is in use is not looked at")
		}
	}
}

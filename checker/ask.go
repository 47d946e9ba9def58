package main

// C06, C07: questions and their answers.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C06"] = checkC06
	checks["C07"] = checkC07
}

func (c *Chk) param(fn *ssa.Function, fits func(types.Type) bool) *Term {
	for _, p := range fn.Params {
		if fits(p.Type()) {
			t := TT.mk(OpParam, p.Name(), p.Type())
			return t
		}
	}
	return nil
}

func isCtx(t types.Type) bool { return types.TypeString(t, nil) == "context.Context" }

// isInvoke: the instruction calls the interface method.
func (c *Chk) invokes(iface *types.Named, name string) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		cc := ci.Common()
		return cc.IsInvoke() && namedOf(cc.Value.Type()) == iface && cc.Method.Name() == name
	}
}

// goReader: the event starts a goroutine that reads the socket.
func (c *Chk) goReader(e *Event) bool {
	return e.Kind == "Go" && e.Fn != nil && !e.Flag && c.p.reaches(e.Fn, nil, c.invokes(c.r.Socket, "ReadData"))
}

// readers: the functions started as goroutines that read the socket.
func (c *Chk) readers() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range c.p.Funcs {
		if fnPkg(f) != c.p.Root || isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					t := c.p.goTarget(g)
					if t != nil && !seen[t] && c.p.reaches(t, nil, c.invokes(c.r.Socket, "ReadData")) {
						seen[t] = true
						out = append(out, t)
					}
				}
			}
		}
	}
	if len(out) == 0 {
		c.ob(false, "anchor", "reader", token.NoPos, nil, "no goroutine reads the socket")
	}
	return out
}

// nativeOnly is the field of Conn that says that only native messages are handled.
func (c *Chk) nativeFields() (allow, only *types.Var) {
	m := c.p.method("Conn", "DeserializeMessage")
	if m != nil {
		for _, b := range m.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().Name() == "DeserializeMessage" && len(call.Call.Args) == 4 {
					get := func(v ssa.Value) *types.Var {
						if u, ok := v.(*ssa.UnOp); ok {
							if fa, ok := u.X.(*ssa.FieldAddr); ok {
								return fieldVarOf(fa)
							}
						}
						return nil
					}
					allow, only = get(call.Call.Args[2]), get(call.Call.Args[3])
				}
			}
		}
	}
	if allow == nil || only == nil {
		c.ob(false, "anchor", "native message switches", token.NoPos, nil, "Conn.DeserializeMessage does not pass the connection's native message switches")
	}
	return
}

// uniqueToken: the text contains the outcome of an atomic increment of something all askers share.
func uniqueToken(t *Term) bool {
	for _, p := range flatten(t) {
		if p.term == nil || p.term.Op != OpPure || len(p.term.Args) == 0 || !strings.HasPrefix(p.term.Sym, "strconv.") {
			continue
		}
		u := p.term.Args[0]
		for u.Op == OpConv && len(u.Args) == 1 && u.Typ != nil && u.Args[0].Typ != nil && isInteger(u.Typ) && isInteger(u.Args[0].Typ) && !narrower(u.Typ, u.Args[0].Typ) {
			u = u.Args[0]
		}
		if u.Op == OpFresh && u.Sym == "atomicadd" && len(u.Args) == 2 {
			if n, ok := u.Args[1].IntVal(); ok && n != 0 {
				if a := u.Args[0]; a.Op == OpGlobal || rootOf(a).Op == OpGlobal {
					return true
				}
			}
		}
	}
	return false
}

// narrower: a has fewer bits than b.
func narrower(a, b types.Type) bool {
	sz := types.SizesFor("gc", "amd64")
	return sz.Sizeof(a.Underlying()) < sz.Sizeof(b.Underlying())
}

// tokenShape: the token starts as its side's tokens must and holds nothing that the wire format uses.
func (c *Chk) tokenShape(pt *Path, t *Term, client bool) (bool, string) {
	ps := flatten(t)
	if len(ps) == 0 {
		return false, "the token is empty"
	}
	for _, p := range ps {
		if p.term == nil && strings.ContainsAny(p.lit, ";!#") {
			return false, "the token holds a character of the wire format"
		}
		if p.term != nil && !(p.term.Op == OpPure && strings.HasPrefix(p.term.Sym, "strconv.Format")) && !(p.term.Op == OpPure && p.term.Sym == "strconv.Itoa") {
			return false, "the token holds text of unknown content: " + p.term.String()
		}
	}
	starts := ps[0].term == nil && ps[0].lit[0] == '$'
	if starts != client {
		return false, "the token does not say which side asks"
	}
	return true, ""
}

// chansIn gives what a blocking wait listens to.
func (c *Chk) listens(e *Event, is func(*Term) bool) bool {
	for _, a := range e.Args {
		if is(a) {
			return true
		}
	}
	return false
}

type askSpec struct {
	root   *ssa.Function
	waitF  *types.Var
	client int // 1 server token, 0 by side
	step   func(e *Event) (conn, msg *Term, ok bool)
	close  bool
}

func (c *Chk) askPaths(sp askSpec, cfg Config, label string) {
	r := c.r
	root := sp.root
	self := TT.mk(OpParam, root.Params[0].Name(), root.Params[0].Type())
	msgP, ctxP := c.param(root, c.isMsg), c.param(root, isCtx)
	if msgP == nil || ctxP == nil {
		c.ob(false, "anchor", label, root.Pos(), nil, "unexpected parameters")
		return
	}
	_, onlyF := c.nativeFields()
	for _, pt := range c.explore(root, "ask:"+label, cfg) {
		var sets, dels, sends, seAsk []*Event
		var waits []*Event
		for _, e := range pt.Events {
			switch e.Kind {
			case "MapSet":
				if mapOwner(e.Args[0], sp.waitF) == self {
					sets = append(sets, e)
				} else if isMapOf(e.Args[0].Typ, "string", func(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }) {
					c.ob(false, "registered", label+" (table)", e.Pos, pt, "registered in another table")
				}
			case "MapDel":
				if mapOwner(e.Args[0], sp.waitF) == self {
					dels = append(dels, e)
				}
			case "Select":
				if e.Flag {
					waits = append(waits, e)
				}
			case "Recv":
				if e.Name != "select" {
					waits = append(waits, e)
				}
			case "Invoke":
				if e.Name == "neffos.StackExchange.Ask" {
					seAsk = append(seAsk, e)
				}
			}
			if _, _, ok := sp.step(e); ok {
				sends = append(sends, e)
			}
		}
		// every blocking wait can be ended from outside
		for _, w := range waits {
			done := c.listens(w, func(a *Term) bool {
				if a.Op != OpPure || a.Sym != "context.Context.Done" {
					return false
				}
				cx := a.Args[0]
				if cx == ctxP || cx.Op == OpAppend {
					return true
				}
				// a context of its own only when none was given
				return pt.Facts.isNil(ctxP) || cx.any(func(t *Term) bool { return t == ctxP })
			})
			c.ob(done, "released", label+" (context)", w.Pos, pt, "a wait is not ended by the caller's context")
			if sp.close {
				cl := c.listens(w, func(a *Term) bool { return isFieldOf(a, self, r.closeCh) })
				c.ob(cl, "released", label+" (close)", w.Pos, pt, "a wait is not ended by the connection closing")
			}
		}
		if len(seAsk) > 0 {
			c.askBackend(pt, label, seAsk, msgP, ctxP, len(sends)+len(sets) == 0)
			continue
		}
		for _, s := range sends {
			conn, m, _ := sp.step(s)
			c.ob(conn == self, "registered", label+" (connection)", s.Pos, pt, "the question goes elsewhere: %s", conn)
			tok := mf(m, r.mWait)
			var reg *Event
			for _, e := range sets {
				if e.Seq < s.Seq && sameVal(pt, e.Args[1], tok) {
					reg = e
				}
			}
			if !c.ob(reg != nil, "registered", label+" (before)", s.Pos, pt, "the question goes out before its token is registered") {
				continue
			}
			ch := reg.Args[2]
			buffered := false
			if ch.Op == OpAlloc && ch.Sym == "makechan" {
				if n, ok := ch.Args[0].IntVal(); ok && n >= 1 {
					buffered = true
				}
			}
			c.ob(buffered, "registered", label+" (room for the answer)", reg.Pos, pt, "an answer that comes before the asker waits has no room: %s", ch)
			c.ob(uniqueToken(tok), "token", label+" (unique)", reg.Pos, pt, "two questions can share the token %s", tok)
			client := sp.client == 0 && c.side(pt, self) < 0
			known := sp.client != 0 || c.side(pt, self) != 0
			ok, why := c.tokenShape(pt, tok, client)
			c.ob(known && ok, "token", label+" (shape)", reg.Pos, pt, "%s", why)
			st := r.Message.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if fv := st.Field(i); fv != r.mWait {
					c.ob(sameVal(pt, mf(m, fv), mf(msgP, fv)), "registered", label+" (question "+fv.Name()+")", s.Pos, pt, "the question goes out with another %s: %s", fv.Name(), mf(m, fv))
				}
			}
		}
		for _, s := range sends {
			// the question is not changed inside the list it is handed over in
			_, m, _ := sp.step(s)
			for _, e := range pt.Events {
				if e.Kind != "Store" || e.Seq > s.Seq || len(e.Args) < 2 {
					continue
				}
				a, same := e.Args[0], false
				switch {
				case a.Op == OpFAddr && a.Args[0].Op == OpIAddr && isMsgList(c, a.Args[0].Args[0]):
					same = sameVal(pt, e.Args[1], mf(m, a.FieldVar))
				case a.Op == OpIAddr && isMsgList(c, a.Args[0]):
					same = c.sameMsg(pt, e.Args[1], m)
				default:
					continue
				}
				c.ob(same, "registered", label+" (list)", e.Pos, pt, "the question is changed before it goes out")
			}
		}
		c.ob(len(sends) <= 1 && len(sets) <= 1, "registered", label+" (once)", root.Pos(), pt, "the question is sent or registered more than once")
		if !complete(pt) {
			c.ob(pt.Outcome != "panic", "released", label+" (panic)", root.Pos(), pt, "it can panic")
			continue
		}
		for _, s := range sets {
			gone := false
			for _, d := range dels {
				gone = gone || (d.Seq > s.Seq && sameVal(pt, d.Args[1], s.Args[1]))
			}
			c.ob(gone, "cleaned", label, s.Pos, pt, "the registration stays behind on this way out")
		}
		if len(pt.Results) != 2 {
			c.ob(false, "anchor", label, root.Pos(), pt, "unexpected results")
			continue
		}
		// the result
		var got *Event
		for _, e := range pt.Events {
			if e.Kind == "Recv" && len(sets) == 1 && e.Args[0] == sets[0].Args[2] {
				got = e
			}
		}
		res, err := pt.Results[0], pt.Results[1]
		if got != nil {
			v := got.Res
			if v.Op == OpTuple {
				v = v.Args[0]
			}
			c.ob(res == v && (err == mf(v, r.mErr) || (pt.Facts.isNil(err) && pt.Facts.isNil(mf(v, r.mErr)))), "result", label+" (answered)", got.Pos, pt, "the answer is returned as %s, %s", res, err)
		} else {
			ok := pt.Facts.isNonNil(err)
			if !ok && len(sends)+len(sets) == 0 && onlyF != nil && sp.close {
				ok = pt.Facts.is(of(self, onlyF), true)
			}
			c.ob(ok, "result", label+" (no answer)", root.Pos(), pt, "without an answer the error returned is %s", err)
			if len(sends) == 1 && sends[0].Kind == "Write" && pt.Facts.is(sends[0].Res, true) {
				c.ob(len(waits) > 0, "result", label+" (waits)", sends[0].Pos, pt, "the question was sent but no answer is waited for")
			}
		}
		if len(sends) == 0 && len(seAsk) == 0 && !(onlyF != nil && sp.close && pt.Facts.is(of(self, onlyF), true)) {
			// refused before anything was sent
			closed := c.closedVar()
			ok := (sp.close && c.seenClosed(pt, closed, self)) || pt.Facts.isNonNil(ctxP)
			c.ob(ok && sp.close, "result", label+" (asks)", root.Pos(), pt, "nothing is asked although the connection is open")
		}
	}
}

// isMsgList: a list of messages made of known parts.
func isMsgList(c *Chk, t *Term) bool {
	if t.Op != OpAppend && t.Op != OpArr && t.Op != OpSlice {
		return false
	}
	return t.any(func(u *Term) bool { return u.Op == OpStruct && types.Identical(u.Typ, c.r.Message) })
}

func (c *Chk) askBackend(pt *Path, label string, asks []*Event, msgP, ctxP *Term, alone bool) {
	r := c.r
	e := asks[0]
	c.ob(len(asks) == 1 && alone, "backend", label+" (once)", e.Pos, pt, "the backend is asked more than once or besides a local question")
	if len(e.Args) < 4 {
		c.ob(false, "anchor", label, e.Pos, pt, "unexpected StackExchange.Ask")
		return
	}
	ctx, m, tok := e.Args[1], e.Args[2], e.Args[3]
	c.ob(ctx == ctxP || pt.Facts.isNil(ctxP), "backend", label+" (context)", e.Pos, pt, "another context is handed to the backend")
	c.ob(sameVal(pt, mf(m, r.mWait), tok), "backend", label+" (token)", e.Pos, pt, "the backend waits on another token than the question carries: %s", tok)
	c.ob(uniqueToken(tok), "token", label+" (backend, unique)", e.Pos, pt, "two questions can share the token %s", tok)
	ok, why := c.tokenShape(pt, tok, false)
	c.ob(ok, "token", label+" (backend, shape)", e.Pos, pt, "%s", why)
	c.ob(pt.Facts.is(mf(m, r.mFromSE), true), "backend", label+" (marked)", e.Pos, pt, "the question is not marked as coming from the backend")
	st := r.Message.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if fv := st.Field(i); fv != r.mWait && fv != r.mFromSE {
			c.ob(sameVal(pt, mf(m, fv), mf(msgP, fv)), "backend", label+" (question "+fv.Name()+")", e.Pos, pt, "the question goes out with another %s: %s", fv.Name(), mf(m, fv))
		}
	}
	if complete(pt) {
		c.ob(len(pt.Results) == 2 && e.Res.Op == OpTuple && pt.Results[0] == e.Res.Args[0] && pt.Results[1] == e.Res.Args[1], "backend", label+" (result)", e.Pos, pt, "the backend's answer is not what is returned")
	}
}

// deliveries: what an incoming message does with the tables of pending questions.
func (c *Chk) deliveries(waitF *types.Var, srv bool) {
	r := c.r
	h := c.p.method("Conn", "HandlePayload")
	if h == nil {
		c.ob(false, "anchor", "Conn.HandlePayload", token.NoPos, nil, "not found")
		return
	}
	conn := TT.mk(OpParam, h.Params[0].Name(), h.Params[0].Type())
	for _, pt := range c.explore(h, "root:HandlePayload", c.rootConfig(h)) {
		in := isReplyPath(pt)
		if in == nil {
			continue
		}
		tok := mf(in, r.mWait)
		fires := c.fires(pt)
		owner := conn
		if srv {
			owner = of(conn, r.connServer)
		}
		found := false
		var notify []*Event
		for _, e := range pt.Events {
			if e.Kind == "Invoke" && e.Name == "neffos.StackExchange.NotifyAsk" {
				notify = append(notify, e)
			}
			if e.Kind == "Send" && e.Name != "select" {
				c.ob(false, "delivered", c.fnName(e)+" (blocking)", e.Pos, pt, "the reader can block on a send")
			}
			if e.Kind == "Select" && e.Flag {
				for _, a := range e.Args {
					if o, _ := r.mapElem(a, r.connWait); o != nil {
						c.ob(false, "delivered", c.fnName(e)+" (blocking)", e.Pos, pt, "the reader can block on an asker")
					}
					if o, _ := r.mapElem(a, r.srvWait); o != nil {
						c.ob(false, "delivered", c.fnName(e)+" (blocking)", e.Pos, pt, "the reader can block on an asker")
					}
				}
			}
		}
		// nobody else is given a message
		for _, e := range pt.Events {
			if e.Kind != "Send" || e.Args[1].Typ == nil || !types.Identical(e.Args[1].Typ, r.Message) {
				continue
			}
			ok := false
			for _, g := range pt.Events {
				if g.Kind == "MapGet" && g.Seq < e.Seq && g.Res.Args[0] == e.Args[0] && sameVal(pt, g.Args[1], tok) {
					ok = mapOwner(g.Args[0], r.connWait) == conn || mapOwner(g.Args[0], r.srvWait) == of(conn, r.connServer)
				}
			}
			c.ob(ok, "delivered", c.fnName(e)+" (asker)", e.Pos, pt, "an answer is given to an asker that was not found under its token: %s", e.Args[0])
		}
		for _, g := range pt.Events {
			if g.Kind != "MapGet" || mapOwner(g.Args[0], waitF) == nil {
				continue
			}
			c.ob(mapOwner(g.Args[0], waitF) == owner && sameVal(pt, g.Args[1], tok), "delivered", c.fnName(g)+" (token)", g.Pos, pt, "the asker is looked up under %s", g.Args[1])
			if absent(pt, g) {
				continue
			}
			found = true
			tried, sent := false, 0
			for _, e := range pt.Events {
				if e.Seq < g.Seq {
					continue
				}
				if e.Kind == "Select" && !e.Flag {
					for _, a := range e.Args {
						tried = tried || a == g.Res.Args[0]
					}
				}
				if e.Kind == "Send" && e.Args[0] == g.Res.Args[0] {
					sent++
					c.ob(c.sameMsg(pt, e.Args[1], in), "delivered", c.fnName(g)+" (the message)", e.Pos, pt, "the asker gets %s", e.Args[1])
				}
			}
			c.ob(tried && sent <= 1, "delivered", c.fnName(g), g.Pos, pt, "a found asker is not given the answer, once and without blocking")
			c.ob(len(fires) == 0, "delivered", c.fnName(g)+" (only)", g.Pos, pt, "an answer is also dispatched as an event")
		}
		if !complete(pt) || pt.Facts.is(mf(in, r.mInvalid), true) || pt.Facts.is(mf(in, r.mNative), true) {
			continue
		}
		if len(fires) > 0 {
			c.ob(pt.Facts.eqStr(tok, "") || c.ownToken(pt, conn, tok) == False, "late", "HandlePayload", fires[0].ev.Pos, pt, "an answer nobody waits for is dispatched as an event")
		}
		if c.ownToken(pt, conn, tok) == True && pt.Facts.neStr(tok, "") && !found {
			looked := len(c.gets(pt, waitF, owner, tok)) > 0
			if srv {
				if c.side(pt, conn) < 0 {
					continue
				}
				// with a backend the answer goes there
				if len(notify) > 0 {
					e := notify[0]
					c.ob(len(notify) == 1 && c.sameMsg(pt, e.Args[1], in) && sameVal(pt, e.Args[2], tok) && pt.Facts.is(mf(in, r.mFromSE), true), "backend", "answer routed", e.Pos, pt, "the answer is routed as %s under %s", e.Args[1], e.Args[2])
					continue
				}
				if pt.Facts.is(mf(in, r.mFromSE), true) {
					exF := r.field(r.Server, "StackExchange", same(r.StackEx))
					c.ob(looked && pt.Facts.isNil(c.seLoad(pt, owner, exF)), "backend", "answer of a backend question", h.Pos(), pt, "an answer to a question of the backend is not routed there")
				}
			} else {
				other := c.gets(pt, r.srvWait, nil, tok)
				for _, o := range other {
					if !absent(pt, o) {
						looked = true // it answers a server-wide question
					}
				}
				looked = looked || len(notify) > 0
			}
			c.ob(looked, "delivered", "HandlePayload (looked up)", h.Pos(), pt, "an answer is dropped without looking for its asker")
		}
	}
}

// seLoad: the value of the backend field the path looked at.
func (c *Chk) seLoad(pt *Path, srv *Term, fv *types.Var) *Term {
	for _, e := range pt.Events {
		if e.Kind == "Load" && e.Args[0].Op == OpFAddr && e.Args[0].FieldVar == fv {
			return e.Res
		}
	}
	return of(srv, fv)
}

// onlyAsk: nobody else registers.
func (c *Chk) onlyRegistrar(waitF *types.Var) {
	c.covered("registered", func(in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok {
			return false
		}
		u, ok := mu.Map.(*ssa.UnOp)
		if !ok {
			return isMapOf(mu.Map.Type(), "string", func(t types.Type) bool {
				ch, ok := t.Underlying().(*types.Chan)
				return ok && types.Identical(ch.Elem(), c.r.Message)
			})
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && fieldVarOf(fa) == waitF
	})
}

func checkC06(c *Chk) {
	r := c.r
	c.rule("registered", "Conn.Ask enters a channel with room for the answer into its own table under the question's token before it hands exactly this question to Write")
	c.rule("token", "the token holds the outcome of an atomic increment shared by all askers, marks the asking side and holds no separator")
	c.rule("released", "every blocking wait of Ask also listens to the caller's context and to the connection's close signal")
	c.rule("cleaned", "every way out after the registration removes it")
	c.rule("result", "Ask returns the received answer with that answer's error; without an answer the error is not nil")
	c.rule("reader", "a question sent while the reader is inside a handler first starts a reader that takes its place")
	c.rule("delivered", "an incoming message that carries a pending token is given to that asker without blocking, and to nobody else")
	c.rule("late", "a message that carries a token of this side is never dispatched as an event")
	root := c.p.method("Conn", "Ask")
	if root == nil {
		c.ob(false, "anchor", "Conn.Ask", token.NoPos, nil, "not found")
		return
	}
	sp := askSpec{root: root, waitF: r.connWait, close: true, step: func(e *Event) (*Term, *Term, bool) {
		if e.Kind == "Write" {
			return e.Args[0], c.argOf(e, c.isMsg), true
		}
		return nil, nil, false
	}}
	c.askPaths(sp, c.except("Ask"), "Conn.Ask")
	// the reader that may be busy in the handler that asks
	inside := c.insideVar()
	if inside != nil {
		self := TT.mk(OpParam, root.Params[0].Name(), root.Params[0].Type())
		for _, pt := range c.explore(root, "ask:Conn.Ask", c.except("Ask")) {
			for _, e := range pt.Events {
				if e.Kind != "Write" {
					continue
				}
				ok := false
				took := false
				for _, a := range pt.Events {
					if a.Seq > e.Seq {
						break
					}
					switch a.Kind {
					case "AtomicLoad":
						if v, o := cellField(a.Args[0]); v == inside && o == self && zeroRead(pt, a.Res) {
							ok = true
						}
					case "CAS":
						if v, o := cellField(a.Args[0]); v == inside && o == self {
							if pt.Facts.is(a.Res, false) {
								ok = true
							} else {
								// a free place cannot be taken: the reader that left it free reads on
								took, ok = nonZeroRead(pt, a.Args[1]), false
							}
						}
					case "Go":
						if c.goReader(a) && took && len(a.Args) > 1 && a.Args[1] == self {
							ok = true
						} else if c.goReader(a) && took && a.Fn.Parent() != nil {
							ok = true
						} else if c.goReader(a) {
							c.ob(false, "reader", "Conn.Ask (two readers)", a.Pos, pt, "a second reader is started without having taken the place of the first")
						}
					}
				}
				c.ob(ok, "reader", "Conn.Ask", e.Pos, pt, "the question is sent while nobody may read its answer")
			}
		}
		c.need("reader", 1)
	}
	c.deliveries(r.connWait, false)
	c.onlyRegistrar(r.connWait)
	c.need("registered", 8)
	c.need("token", 2)
	c.need("released", 2)
	c.need("cleaned", 1)
	c.need("result", 2)
	c.need("delivered", 3)
	c.need("late", 1)
}

// insideVar: the flag of Conn that the reader raises around handling a message and gives up by compare-and-swap.
func (c *Chk) insideVar() *types.Var {
	var fv *types.Var
	for _, rd := range c.readers() {
		for _, pt := range c.explore(rd, "reader", c.readerConfig(rd)) {
			handled := false
			for _, e := range pt.Events {
				if e.Kind == "Handle" {
					handled = true
				}
				if e.Kind == "CAS" && handled {
					if v, _ := cellField(e.Args[0]); v != nil {
						fv = v
					}
				}
			}
		}
	}
	if fv == nil {
		c.ob(false, "anchor", "reader's flag", token.NoPos, nil, "the reader does not give up its place by a compare-and-swap after handling a message")
	}
	return fv
}

func (c *Chk) readerConfig(root *ssa.Function) Config {
	return c.rootConfig(root)
}

func checkC07(c *Chk) {
	r := c.r
	c.rule("registered", "Server.Ask enters a channel with room for the answer into the server's table under the question's token before it broadcasts exactly this question")
	c.rule("token", "the token holds the outcome of an atomic increment shared by all askers, is marked as the server's and holds no separator")
	c.rule("released", "every blocking wait of Ask also listens to the caller's context")
	c.rule("cleaned", "every way out after the registration removes it")
	c.rule("result", "Ask returns the first received answer with that answer's error; without an answer the error is not nil")
	c.rule("backend", "with a scale-out backend the question goes to it once, marked, with the very token it carries, and answers to marked questions go back through it under that token")
	c.rule("delivered", "an incoming message that carries a pending server-wide token is given to that asker without blocking, and to nobody else")
	c.rule("late", "a message that carries a token of this side is never dispatched as an event")
	c.rule("mark", "encoding a marked message puts the backend mark into the token, decoding takes it out and restores token and mark")
	root := c.p.method("Server", "Ask")
	if root == nil {
		c.ob(false, "anchor", "Server.Ask", token.NoPos, nil, "not found")
		return
	}
	self := TT.mk(OpParam, root.Params[0].Name(), root.Params[0].Type())
	sp := askSpec{root: root, waitF: r.srvWait, client: 1, step: func(e *Event) (*Term, *Term, bool) {
		l := c.handoff(e)
		if l == nil {
			return nil, nil, false
		}
		var owner, m *Term
		if e.Args[0].any(func(t *Term) bool { return t == self }) {
			owner = self
		}
		for l.Op == OpAppend && len(l.Args) == 2 && (l.Args[0].IsNil() || mkLen(l.Args[0]) == TT.Int(0)) {
			l = l.Args[1]
		}
		if l.Op == OpArr && len(l.Args) == 1 {
			m = l.Args[0]
		}
		return owner, m, true
	}}
	c.askPaths(sp, c.base(), "Server.Ask")
	c.deliveries(r.srvWait, true)
	c.onlyRegistrar(r.srvWait)
	c.markRules()
	c.need("registered", 8)
	c.need("token", 4)
	c.need("released", 1)
	c.need("cleaned", 1)
	c.need("result", 2)
	c.need("backend", 8)
	c.need("delivered", 3)
	c.need("late", 1)
	c.need("mark", 2)
}

// handoff: the messages that an event gives to those who deliver broadcasts: a backend, the server's own
// loop, or a list that the connections wait on; nil if it does not.
func (c *Chk) handoff(e *Event) *Term {
	isMsgs := func(t types.Type) bool {
		if t == nil {
			return false
		}
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), c.r.Message)
	}
	switch e.Kind {
	case "Invoke":
		if e.Name == "neffos.StackExchange.Publish" {
			return e.Args[1]
		}
	case "Send":
		ch, ok := e.Args[0].Typ.Underlying().(*types.Chan)
		if ok && isMsgs(ch.Elem()) {
			return e.Args[1]
		}
	case "Store":
		a := e.Args[0]
		if a.Op == OpFAddr && a.FieldVar != nil && isMsgs(a.FieldVar.Type()) && e.Instr != nil {
			return e.Args[1]
		}
	}
	return nil
}

// sameMsg: the same message, whatever is said about an excluded sender.
func (c *Chk) sameMsg(pt *Path, a, b *Term) bool {
	if a == b {
		return true
	}
	st := c.r.Message.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if fv := st.Field(i); fv != c.r.mFromEx && fv != c.r.mFrom && !sameVal(pt, mf(a, fv), mf(b, fv)) {
			return false
		}
	}
	return true
}

package main

// C05: every request from the remote side gets exactly one answer.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C05"] = checkC05 }

func (c *Chk) global(name string) *Term {
	if g, ok := c.p.Root.Members[name].(*ssa.Global); ok {
		if t, ok := c.p.globals[g]; ok {
			return t
		}
	}
	c.ob(false, "anchor", name, token.NoPos, nil, "%s is not a fixed package-level value", name)
	return TT.unique(OpFresh, name, nil, token.NoPos)
}

// sameVal: the two terms are the same value, as far as the path knows.
func sameVal(pt *Path, a, b *Term) bool {
	return a == b || (a != nil && b != nil && pt.Facts.equal(a, b) == True)
}

// clientToken: the token starts with the mark of tokens made by clients.
func (c *Chk) clientToken(pt *Path, tok *Term) Tri {
	first := TT.mk(OpIndex, "", types.Typ[types.Byte], tok, TT.Int(0))
	if v := pt.Facts.eqv(first, TT.Int('$')); v != Unknown {
		return v
	}
	if v := pt.Facts.eval(TT.mk(OpPure, "strings.HasPrefix", types.Typ[types.Bool], tok, TT.Str("$"))); v != Unknown {
		return v
	}
	res := Unknown
	for a, v := range pt.Facts.b {
		a.any(func(t *Term) bool {
			if t.Op == OpBin && t.Sym == "==" && len(t.Args) == 2 {
				x, y := t.Args[0], t.Args[1]
				if (x.Op == OpIndex || x.Op == OpSlice) && x.Args[0] == tok {
					if n, ok := y.IntVal(); ok && n == '$' && a == t {
						res = tri(v)
					}
				}
			}
			return false
		})
	}
	return res
}

// ownToken: the token was made by this side, so that the message is an answer to it.
func (c *Chk) ownToken(pt *Path, conn, tok *Term) Tri {
	if pt.Facts.eqStr(tok, "") {
		return False
	}
	cl := c.clientToken(pt, tok)
	switch s := c.side(pt, conn); {
	case s == 0 || cl == Unknown:
		return Unknown
	case s > 0:
		return cl.not()
	default:
		return cl
	}
}

type answer struct {
	ev      *Event
	err     *Term // nil term for success
	success bool
	msg     *Term
	sent    bool // known to reach the socket
}

// answers lists what is sent to the remote side under the token.
func (c *Chk) answers(pt *Path, conn, tok *Term) (out []answer, other []*Event) {
	r := c.r
	for _, e := range pt.Events {
		switch {
		case isWire(e):
			m, t := c.answerOf(flatten(e.Args[1]))
			if t == nil || !sameVal(pt, t, tok) || !isFieldOf(e.Args[0], conn, r.socket) {
				other = append(other, e)
				continue
			}
			a := answer{ev: e, sent: true, msg: m}
			if m == nil {
				ps := flatten(e.Args[1])
				a.success = len(ps) == 2 && ps[1].lit == ";;;;;;"
				if !a.success {
					other = append(other, e)
					continue
				}
			} else {
				a.err = mf(m, r.mErr)
				a.success = pt.Facts.isNil(a.err)
				bin := pt.Facts.eval(mf(m, r.mBinary))
				_ = bin
			}
			out = append(out, a)
		case e.Kind == "Write":
			m := c.argOf(e, c.isMsg)
			if e.Args[0] != conn || !sameVal(pt, mf(m, r.mWait), tok) {
				other = append(other, e)
				continue
			}
			a := answer{ev: e, msg: m, err: mf(m, r.mErr)}
			a.success = pt.Facts.isNil(a.err)
			a.sent = c.gatePasses(pt, conn, m, e.Seq)
			out = append(out, a)
		}
	}
	return
}

// gatePasses: Conn.Write lets the message through (see C01), unless the connection closes meanwhile.
func (c *Chk) gatePasses(pt *Path, conn, m *Term, seq int) bool {
	r := c.r
	if c.nsExempt(pt, m) == True {
		return true
	}
	for _, g := range c.gets(pt, r.nsMap, conn, mf(m, r.mNS)) {
		if g.Seq < seq && present(pt, g) {
			if c.roomExempt(pt, m) == True {
				return true
			}
			for _, rg := range c.gets(pt, r.roomMap, g.Res.Args[0], mf(m, r.mRoom)) {
				if rg.Seq < seq && present(pt, rg) {
					return true
				}
			}
		}
	}
	return false
}

func checkC05(c *Chk) {
	c.rule("once", "on every path that takes up a connect, disconnect, join or leave request with a reply token of the remote side, exactly one answer is sent on the same connection under that token, and it passes the outbound gate")
	c.rule("verdict", "the answer is success exactly when the membership was changed as asked, after the change, or was already as asked; else it carries the callback's own error, or the bad-namespace error when the namespace is not declared or not connected, and names the request's namespace, room and event")
	c.rule("silent", "a request without token or marked no-op changes nothing, runs no callback and is not answered, the bad-namespace error aside")
	c.rule("event", "an ordinary event whose handler returns an error or reply is answered exactly once with it under its own token, namespace, room and event; without error nothing is sent; for an unconnected namespace a waiting sender gets the bad-namespace error")
	h := c.p.method("Conn", "HandlePayload")
	if h == nil {
		c.ob(false, "anchor", "Conn.HandlePayload", token.NoPos, nil, "not found")
		return
	}
	r := c.r
	conn := TT.mk(OpParam, h.Params[0].Name(), h.Params[0].Type())
	badNS := c.global("ErrBadNamespace")
	reqs := []string{"OnNamespaceConnect", "OnNamespaceDisconnect", "OnRoomJoin", "OnRoomLeave"}
	for _, pt := range c.explore(h, "root:HandlePayload", c.rootConfig(h)) {
		if !complete(pt) {
			continue
		}
		in := isReplyPath(pt)
		if in == nil {
			c.ob(false, "once", "HandlePayload (decoded)", h.Pos(), pt, "the payload is not decoded")
			continue
		}
		tok, ev := mf(in, r.mWait), mf(in, r.mEvent)
		var dels, sets []*Event
		consumed := false
		for _, e := range pt.Events {
			switch e.Kind {
			case "MapDel":
				if isMemberMap(e.Args[0].Typ, r.Room) || isMemberMap(e.Args[0].Typ, r.NSConn) {
					dels = append(dels, e)
				}
			case "MapSet":
				if isMemberMap(e.Args[0].Typ, r.Room) || isMemberMap(e.Args[0].Typ, r.NSConn) {
					sets = append(sets, e)
				}
			case "Select":
				for _, a := range e.Args {
					if o, _ := r.mapElem(a, r.connWait); o != nil {
						consumed = true
					}
					if o, _ := r.mapElem(a, r.srvWait); o != nil {
						consumed = true
					}
				}
			case "Send":
				consumed = true
			case "Invoke":
				if e.Name == "neffos.StackExchange.NotifyAsk" {
					consumed = true
				}
			}
		}
		fires := c.fires(pt)
		ans, other := c.answers(pt, conn, tok)
		for _, o := range other {
			c.ob(false, "once", c.fnName(o)+" (token)", o.Pos, pt, "something else than an answer to the request is sent")
		}
		if pt.Facts.is(mf(in, r.mInvalid), true) {
			c.ob(len(ans) == 0 && len(fires) == 0, "silent", "invalid payload", h.Pos(), pt, "an invalid payload has an effect")
			continue
		}
		if pt.Facts.is(mf(in, r.mNative), true) && len(ans) == 0 && len(fires) <= 1 && len(sets)+len(dels) == 0 {
			// a native message carries no token (C12)
			c.ob(true, "event", "native message", h.Pos(), pt, "")
			continue
		}
		if consumed || c.ownToken(pt, conn, tok) == True {
			c.ob(len(ans) == 0 && len(fires) == 0 && len(sets)+len(dels) == 0, "silent", "an answer to this side", h.Pos(), pt, "an answer is taken for a request")
			continue
		}
		noTok, hasTok := pt.Facts.eqStr(tok, ""), pt.Facts.neStr(tok, "")
		noOp, isOp := pt.Facts.is(mf(in, r.mNoOp), true), pt.Facts.is(mf(in, r.mNoOp), false)
		req := ""
		for _, q := range reqs {
			if c.isEv(pt, ev, q) {
				req = q
			}
		}
		if req == "" {
			c.ordinary(pt, conn, in, fires, ans, badNS, noTok, hasTok, h)
			continue
		}
		nsGets := c.gets(pt, r.nsMap, conn, mf(in, r.mNS))
		nsIn, nsOut := false, false
		var ns *Term
		for _, g := range nsGets {
			if present(pt, g) {
				nsIn, ns = true, g.Res.Args[0]
			}
			if absent(pt, g) {
				nsOut = true
			}
		}
		isBadNS := func(a answer) bool { return !a.success && a.err == badNS }
		if noTok || noOp {
			ok := len(fires) == 0 && len(sets)+len(dels) == 0
			if noTok {
				ok = ok && len(ans) == 0
			} else {
				ok = ok && (len(ans) == 0 || (len(ans) == 1 && isBadNS(ans[0]) && nsOut))
			}
			c.ob(ok, "silent", req, h.Pos(), pt, "a %s without token or no-op has an effect or is answered", req)
			continue
		}
		if len(ans) == 0 && len(sets)+len(dels) == 0 && len(fires) > 0 && c.closedAfter(pt, fires[len(fires)-1].ev.Seq) {
			c.ob(len(fires) == 1, "once", req+" (closed meanwhile)", h.Pos(), pt, "")
			continue
		}
		if len(ans) != 1 {
			c.ob(false, "once", req, h.Pos(), pt, "a %s is answered %d times", req, len(ans))
			continue
		}
		a := ans[0]
		if !c.ob(hasTok && (isOp || isBadNS(a)), "once", req+" (looked at)", a.ev.Pos, pt, "a %s is answered without looking at its token and no-op mark", req) {
			continue
		}
		c.ob(a.sent, "once", req, a.ev.Pos, pt, "the answer may be dropped by the outbound gate")
		c.ob(!a.success || a.msg == nil, "verdict", req+" (plain success)", a.ev.Pos, pt, "success is answered with %s", a.msg)
		if a.msg != nil {
			ok := sameVal(pt, mf(a.msg, r.mNS), mf(in, r.mNS)) && sameVal(pt, mf(a.msg, r.mRoom), mf(in, r.mRoom)) && sameVal(pt, mf(a.msg, r.mEvent), ev)
			c.ob(ok, "verdict", req+" (names)", a.ev.Pos, pt, "the answer names another namespace, room or event: %s", a.msg)
			c.ob(sameVal(pt, mf(a.msg, r.mNoOp), mf(in, r.mNoOp)) && sameVal(pt, mf(a.msg, r.mFromSE), mf(in, r.mFromSE)), "verdict", req+" (marks)", a.ev.Pos, pt, "the answer is marked no-op or routed elsewhere")
		}
		// what the verdict has to be
		var refusal *Term
		unknown := false
		for _, f := range fires {
			if c.isEv(pt, f.name, req) && !pt.Facts.is(mf(f.msg, r.mForced), true) {
				switch pt.Facts.nilness(f.res) {
				case False:
					refusal = f.res
				case Unknown:
					unknown = true
				}
			}
		}
		own := func(list []*Event, fv *types.Var, owner *Term, key *Term) *Event {
			for _, e := range list {
				if mapOwner(e.Args[0], fv) == owner && sameStr(pt, e.Args[1], key) {
					return e
				}
			}
			return nil
		}
		var done *Event
		already := false
		declared := True
		switch req {
		case "OnNamespaceConnect":
			done = own(sets, r.nsMap, conn, mf(in, r.mNS))
			already = nsIn
			for _, g := range pt.Events {
				if g.Kind == "MapGet" && fieldBase(g.Args[0], r.nsTable) == conn && sameStr(pt, g.Args[1], mf(in, r.mNS)) && absent(pt, g) {
					declared = False
				}
			}
		case "OnNamespaceDisconnect":
			done = own(dels, r.nsMap, conn, mf(in, r.mNS))
			already = nsOut || c.goneAfter(pt, r.nsMap, conn, mf(in, r.mNS), 0)
		case "OnRoomJoin":
			done = own(sets, r.roomMap, ns, mf(in, r.mRoom))
			for _, g := range c.gets(pt, r.roomMap, ns, mf(in, r.mRoom)) {
				already = already || (nsIn && present(pt, g))
			}
			if nsOut {
				declared = False
			}
		case "OnRoomLeave":
			done = own(dels, r.roomMap, ns, mf(in, r.mRoom))
			for _, g := range c.gets(pt, r.roomMap, ns, mf(in, r.mRoom)) {
				already = already || (nsIn && absent(pt, g))
			}
			if nsOut {
				declared = False
			}
		}
		client := c.side(pt, conn) < 0
		switch {
		case done != nil:
			c.ob(a.success && a.ev.Seq > done.Seq, "verdict", req+" (granted)", a.ev.Pos, pt, "the request was granted but that is not what is answered afterwards")
		case declared == False && !already:
			c.ob(isBadNS(a), "verdict", req+" (bad namespace)", a.ev.Pos, pt, "the namespace is not there but the answer is %s", a.err)
		case already:
			c.ob(a.success, "verdict", req+" (already so)", a.ev.Pos, pt, "nothing was to be done but the answer is %s", a.err)
		case refusal != nil:
			c.ob(!a.success && a.err == refusal, "verdict", req+" (refused)", a.ev.Pos, pt, "the answer is not the callback's error: %s", a.err)
		default:
			c.ob(false, "verdict", req+" (decided)", a.ev.Pos, pt, "the answer is given without a decision")
		}
		_, _ = unknown, client
	}
	c.need("once", 8)
	c.need("verdict", 12)
	c.need("silent", 5)
	c.need("event", 4)
}

func (c *Chk) ordinary(pt *Path, conn, in *Term, fires []fire, ans []answer, badNS *Term, noTok, hasTok bool, h *ssa.Function) {
	r := c.r
	if len(fires) == 0 {
		switch {
		case noTok:
			c.ob(len(ans) == 0, "event", "not dispatched, nobody waits", h.Pos(), pt, "an answer is sent although nobody waits")
		case hasTok:
			ok := len(ans) == 1 && !ans[0].success && ans[0].sent
			c.ob(ok, "event", "not dispatched, sender waits", h.Pos(), pt, "the waiting sender of an event that is not dispatched gets no error")
			if ok {
				nsOut := false
				for _, g := range c.gets(pt, r.nsMap, conn, mf(in, r.mNS)) {
					nsOut = nsOut || absent(pt, g)
				}
				if nsOut {
					c.ob(ans[0].err == badNS, "event", "unconnected namespace", ans[0].ev.Pos, pt, "the error is not the bad-namespace one: %s", ans[0].err)
				}
			}
		default:
			c.ob(false, "event", "not dispatched", h.Pos(), pt, "whether the sender waits is not looked at")
		}
		return
	}
	f := fires[0]
	switch pt.Facts.nilness(f.res) {
	case True:
		c.ob(len(ans) == 0, "event", "handled", f.ev.Pos, pt, "something is sent although the handler returned nil")
	case False:
		ok := len(ans) == 1 && ans[0].err == f.res && ans[0].ev.Seq > f.ev.Seq
		c.ob(ok, "event", "error or reply", f.ev.Pos, pt, "the handler's error or reply is not sent back exactly once")
		if ok && ans[0].msg != nil {
			m := ans[0].msg
			st := r.Message.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				fv := st.Field(i)
				if fv == r.mErr || fv == r.mLocal || fv == r.mForced || fv == r.mTo || fv == r.mFrom || fv == r.mIsError || fv == r.mInvalid {
					continue
				}
				if fv == r.mFromEx && pt.Facts.eqStr(mf(m, fv), "") {
					continue
				}
				c.ob(sameVal(pt, mf(m, fv), mf(in, fv)), "event", "reply keeps "+fv.Name(), ans[0].ev.Pos, pt, "the reply goes out with another %s: %s", fv.Name(), mf(m, fv))
			}
		}
	default:
		c.ob(false, "event", "verdict looked at", f.ev.Pos, pt, "the handler's verdict is ignored")
	}
}

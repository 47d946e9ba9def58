package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C01"] = checkC01 }

// closedVar is the field of Conn that Close claims with a compare-and-swap.
func (c *Chk) closedVar() *types.Var {
	root := c.p.method("Conn", "Close")
	var fv *types.Var
	for _, pt := range c.explore(root, "Conn.Close", c.except("Close")) {
		for _, e := range pt.Events {
			if e.Kind == "CAS" {
				v, _ := cellField(e.Args[0])
				if fv == nil {
					fv = v
				}
				break
			}
		}
	}
	if fv == nil {
		c.ob(false, "anchor", "closed flag of Conn", token.NoPos, nil, "Conn.Close claims no atomic flag")
	}
	return fv
}

// openBefore: the connection was seen open before seq on this path.
func (c *Chk) openBefore(pt *Path, closed *types.Var, conn *Term, seq int) bool {
	for _, e := range pt.Events {
		if e.Seq < seq && e.Kind == "AtomicLoad" {
			if v, o := cellField(e.Args[0]); v == closed && o == conn && zeroRead(pt, e.Res) {
				return true
			}
		}
	}
	return false
}

func (c *Chk) seenClosed(pt *Path, closed *types.Var, conn *Term) bool {
	for _, e := range pt.Events {
		if e.Kind == "AtomicLoad" {
			if v, o := cellField(e.Args[0]); v == closed && o == conn && nonZeroRead(pt, e.Res) {
				return true
			}
		}
	}
	return false
}

// closedAfter: a connection was found closed after seq.
func (c *Chk) closedAfter(pt *Path, seq int) bool {
	if c.closedFV == nil {
		c.closedFV = c.closedVar()
	}
	for _, e := range pt.Events {
		if e.Kind == "AtomicLoad" && e.Seq > seq {
			if v, _ := cellField(e.Args[0]); v != nil && v == c.closedFV && nonZeroRead(pt, e.Res) {
				return true
			}
		}
	}
	return false
}

func (c *Chk) nsExempt(pt *Path, msg *Term) Tri {
	e := mf(msg, c.r.mEvent)
	if c.isEv(pt, e, "OnNamespaceConnect") || c.isEv(pt, e, "OnNamespaceDisconnect") {
		return True
	}
	if c.notEv(pt, e, "OnNamespaceConnect") && c.notEv(pt, e, "OnNamespaceDisconnect") {
		return False
	}
	return Unknown
}

func (c *Chk) roomExempt(pt *Path, msg *Term) Tri {
	if pt.Facts.eqStr(mf(msg, c.r.mRoom), "") {
		return True
	}
	e := mf(msg, c.r.mEvent)
	if c.isEv(pt, e, "OnRoomJoin") || c.isEv(pt, e, "OnRoomLeft") {
		return True
	}
	if pt.Facts.neStr(mf(msg, c.r.mRoom), "") && c.notEv(pt, e, "OnRoomJoin") && c.notEv(pt, e, "OnRoomLeft") {
		return False
	}
	return Unknown
}

// excluded: the connection is the explicitly excluded sender.
func (c *Chk) excluded(pt *Path, conn, msg *Term) Tri {
	fe := mf(msg, c.r.mFromEx)
	if pt.Facts.eqStr(fe, "") {
		return False
	}
	side := c.side(pt, conn)
	if side == 0 {
		return Unknown
	}
	fv := c.r.connSID
	if side < 0 {
		fv = c.r.connID
	}
	res := Unknown
	for _, e := range pt.Events {
		if e.Kind == "Load" && e.Args[0].Op == OpFAddr && e.Args[0].FieldVar == fv && e.Args[0].Args[0] == conn {
			if v := pt.Facts.equal(e.Res, fe); v != Unknown {
				res = v
			}
		}
	}
	if res == Unknown {
		res = pt.Facts.equal(of(conn, fv), fe)
	}
	return res
}

func checkC01(c *Chk) {
	c.rule("gate", "on every path of Conn.Write that reaches the socket: the connection was seen open, the message's namespace was found connected (or the event is connect/disconnect), its room was found joined (or none is named, or the event is join/left), and the connection is not the excluded sender")
	c.rule("reason", "Conn.Write returns without writing only on paths where one of those conditions is known to fail")
	c.rule("verdict", "Conn.Write returns true exactly when the one socket write returned no error")
	c.rule("bytes", "what is written is the encoding of the given message with only the excluded-sender marker cleared, as binary frame iff SetBinary")
	c.rule("emit", "Emit, EmitBinary, Ask and Room.Emit hand exactly one message with their namespace, room, event, body and frame type to Write/Ask of their own connection and return its verdict")
	c.rule("side-door", "no other code writes to the socket except handshake signals and answers that carry a request's own token")
	closed := c.closedVar()
	if closed == nil {
		return
	}
	r := c.r
	w := c.p.method("Conn", "Write")
	paths := c.explore(w, "Conn.Write", c.except("Write"))
	if w == nil || len(w.Params) != 2 {
		c.ob(false, "anchor", "Conn.Write", token.NoPos, nil, "Conn.Write(msg) not found")
		return
	}
	conn, msg := TT.mk(OpParam, w.Params[0].Name(), w.Params[0].Type()), TT.mk(OpParam, w.Params[1].Name(), w.Params[1].Type())
	ns, room := mf(msg, r.mNS), mf(msg, r.mRoom)
	name := rel(c, w)
	for _, pt := range paths {
		if !complete(pt) {
			continue
		}
		var wire []*Event
		for _, e := range pt.Events {
			if isWire(e) {
				wire = append(wire, e)
			}
		}
		nsGets := c.gets(pt, r.nsMap, conn, ns)
		if len(wire) == 0 {
			ok := c.seenClosed(pt, closed, conn)
			for _, g := range nsGets {
				if absent(pt, g) && c.nsExempt(pt, msg) == False {
					ok = true
				}
				for _, rg := range c.gets(pt, r.roomMap, g.Res.Args[0], room) {
					if absent(pt, rg) && c.roomExempt(pt, msg) == False {
						ok = true
					}
				}
			}
			if c.excluded(pt, conn, msg) == True {
				ok = true
			}
			c.ob(ok, "reason", name, w.Pos(), pt, "a message that may be sent is dropped on this path")
			c.ob(len(pt.Results) == 1 && pt.Facts.is(pt.Results[0], false), "verdict", name+" (not written)", w.Pos(), pt, "nothing was written but the result is not false")
			continue
		}
		e := wire[0]
		c.ob(len(wire) == 1, "verdict", name+" (one write)", e.Pos, pt, "the message is written more than once")
		c.ob(isFieldOf(e.Args[0], conn, r.socket), "bytes", name+" (socket)", e.Pos, pt, "written to another socket")
		c.ob(c.openBefore(pt, closed, conn, e.Seq), "gate", name+" (open)", e.Pos, pt, "the socket is written without having seen the connection open")
		nsOK, roomOK := c.nsExempt(pt, msg) == True, c.nsExempt(pt, msg) == True || c.roomExempt(pt, msg) == True
		for _, g := range nsGets {
			if g.Seq < e.Seq && present(pt, g) {
				nsOK = true
				for _, rg := range c.gets(pt, r.roomMap, g.Res.Args[0], room) {
					if rg.Seq < e.Seq && present(pt, rg) {
						roomOK = true
					}
				}
			}
		}
		c.ob(nsOK, "gate", name+" (namespace)", e.Pos, pt, "the socket is written although the message's namespace was not found connected")
		c.ob(roomOK, "gate", name+" (room)", e.Pos, pt, "the socket is written although the message's room was not found joined in its namespace")
		c.ob(c.excluded(pt, conn, msg) == False, "gate", name+" (excluded sender)", e.Pos, pt, "the socket is written although the connection may be the excluded sender")
		c.checkBytes(pt, e, msg, name)
		res := Unknown
		if len(pt.Results) == 1 {
			res = pt.Facts.eval(pt.Results[0])
		}
		c.ob(res == pt.Facts.nilness(e.Res) && res != Unknown, "verdict", name+" (written)", e.Pos, pt, "the result does not say whether the transport accepted the message")
	}
	c.need("gate", 4)

	// the convenience calls
	type em struct {
		typ, name, kind string
		binary, room    bool
	}
	for _, m := range []em{{"NSConn", "Emit", "Write", false, false}, {"NSConn", "EmitBinary", "Write", true, false}, {"NSConn", "Ask", "Ask", false, false}, {"Room", "Emit", "Write", false, true}} {
		fn := c.p.method(m.typ, m.name)
		for _, pt := range c.explore(fn, m.typ+"."+m.name, c.base()) {
			if !complete(pt) {
				continue
			}
			label := rel(c, fn)
			self := TT.mk(OpParam, fn.Params[0].Name(), fn.Params[0].Type())
			nsT := self
			if m.room {
				nsT = of(self, r.roomNS)
			}
			var calls []*Event
			for _, e := range pt.Events {
				if e.Kind == "Write" || e.Kind == "Ask" || isWire(e) {
					calls = append(calls, e)
				}
			}
			if len(calls) == 0 {
				c.ob(pt.Facts.isNil(nsT), "emit", label+" (sends)", fn.Pos(), pt, "nothing is sent")
				if n := len(pt.Results); n == 1 {
					c.ob(pt.Facts.eval(pt.Results[0]) == False, "emit", label+" (not sent)", fn.Pos(), pt, "nothing is sent but %s returned", pt.Results[0])
				} else if n == 2 {
					c.ob(!pt.Facts.isNil(pt.Results[1]), "emit", label+" (not sent)", fn.Pos(), pt, "nothing is sent and no error returned")
				}
				continue
			}
			e := calls[0]
			c.ob(len(calls) == 1 && e.Kind == m.kind, "emit", label+" (once)", e.Pos, pt, "not exactly one %s", m.kind)
			got := c.argOf(e, c.isMsg)
			c.ob(e.Args[0] == of(nsT, r.nsConn), "emit", label+" (connection)", e.Pos, pt, "sent on another connection: %s", e.Args[0])
			if got == nil {
				continue
			}
			ok := mf(got, r.mNS) == of(nsT, r.nsName)
			var evP, bodyP *Term
			for i, p := range fn.Params {
				if i == 0 {
					continue
				}
				if isString(p.Type()) && evP == nil {
					evP = TT.mk(OpParam, p.Name(), p.Type())
				}
				if isBytes(p.Type()) && bodyP == nil {
					bodyP = TT.mk(OpParam, p.Name(), p.Type())
				}
			}
			ok = ok && mf(got, r.mEvent) == evP && mf(got, r.mBody) == bodyP
			if m.room {
				ok = ok && mf(got, r.mRoom) == of(self, r.roomName)
			} else {
				ok = ok && isZeroTerm(mf(got, r.mRoom))
			}
			b, known := mf(got, r.mBinary).BoolVal()
			ok = ok && known && b == m.binary
			for _, fv := range []*types.Var{r.mErr, r.mNoOp, r.mInvalid, r.mFrom, r.mFromEx, r.mFromSE, r.mTo, r.mNative, r.mWait} {
				ok = ok && isZeroTerm(mf(got, fv))
			}
			c.ob(ok, "emit", label+" (message)", e.Pos, pt, "the message sent is %s", got)
			resOK := true
			if m.kind == "Write" {
				resOK = len(pt.Results) == 1 && pt.Results[0] == e.Res
			} else if e.Res.Op == OpTuple {
				resOK = len(pt.Results) == 2 && pt.Results[0] == e.Res.Args[0] && pt.Results[1] == e.Res.Args[1]
			}
			c.ob(resOK, "emit", label+" (verdict)", e.Pos, pt, "the verdict is not passed on")
			if m.kind == "Ask" {
				c.ob(e.Args[1] == TT.mk(OpParam, fn.Params[1].Name(), fn.Params[1].Type()), "emit", label+" (context)", e.Pos, pt, "the context is not passed on")
			}
		}
	}
	c.need("emit", 12)

	// the nil handle of a namespace that is not connected
	c.rule("nil-handle", "the calls of a nil namespace connection have no effect, do not fail with a panic and report that nothing was sent or joined")
	for _, n := range []string{"Emit", "EmitBinary", "Ask", "JoinRoom", "Room", "LeaveAll", "Disconnect"} {
		fn := c.p.method("NSConn", n)
		if fn == nil {
			c.ob(false, "anchor", "NSConn."+n, token.NoPos, nil, "not found")
			continue
		}
		label := rel(c, fn)
		cfg := c.base()
		cfg.Setup = func(x *Exec, st *State, params []*Term) { st.frames[0].env[fn.Params[0]] = TT.Nil() }
		for _, pt := range c.explore(fn, "nil:"+n, cfg) {
			for _, e := range pt.Events {
				switch e.Kind {
				case "MayPanic", "Write", "Ask", "Fire", "Invoke", "Dyn", "Send", "Go", "MapSet", "MapDel":
					c.ob(false, "nil-handle", label, e.Pos, pt, "the call on a nil namespace connection does %s %s", e.Kind, e.Name)
				}
			}
			if !complete(pt) {
				c.ob(false, "nil-handle", label+" (returns)", fn.Pos(), pt, "the call on a nil namespace connection does not return: %s", pt.Outcome)
				continue
			}
			ok := true
			for i, res := range pt.Results {
				switch t := fn.Signature.Results().At(i).Type(); {
				case isBoolT(t):
					ok = ok && pt.Facts.eval(res) == False
				case types.Identical(t, errType) && len(pt.Results) > 1:
					ok = ok && (pt.Facts.isNonNil(res) || isErrVar(res))
				case namedOf(t) == r.Room:
					ok = ok && pt.Facts.isNil(res)
				}
			}
			c.ob(ok, "nil-handle", label+" (result)", fn.Pos(), pt, "the call on a nil namespace connection returns %v", pt.Results)
		}
	}
	c.need("nil-handle", 6)

	// side doors
	stop := func(f *ssa.Function) bool { k := r.baseOpaque(f); return k == "Write" || k == "Ask" || k == "Close" }
	handle := c.p.method("Conn", "HandlePayload")
	n := 0
	for _, f := range c.p.entryPoints() {
		if fnPkg(f) != c.p.Root || f == w {
			continue
		}
		if !c.p.reaches(f, func(g *ssa.Function) bool { return stop(g) || (g == handle && f != handle) }, func(in ssa.Instruction) bool {
			call, ok := in.(*ssa.Call)
			return ok && call.Call.IsInvoke() && namedOf(call.Call.Value.Type()) == r.Socket && (call.Call.Method.Name() == "WriteText" || call.Call.Method.Name() == "WriteBinary")
		}) {
			continue
		}
		n++
		for _, pt := range c.explore(f, "side:"+f.Name(), c.plusHandle(f)) {
			for _, e := range pt.Events {
				if !isWire(e) {
					continue
				}
				ps := flatten(e.Args[1])
				ok := false
				if len(ps) > 0 && ps[0].term == nil && len(ps[0].lit) == 1 {
					// a handshake signal: one letter, then at most one value, which is not an encoded message
					ok = len(ps) <= 2
					if len(ps) == 2 && ps[1].term.any(func(t *Term) bool { return t.Op == OpPure && t.Sym == "Encode" }) {
						ok = false
					}
				} else if m, tok := c.answerOf(ps); tok != nil {
					ok = pt.Facts.neStr(tok, "")
					if m != nil {
						ok = ok && pt.Facts.eqStr(mf(m, r.mFromEx), "")
					}
				}
				c.ob(ok, "side-door", c.fnName(e)+" from "+rel(c, f), e.Pos, pt, "the socket is written outside Conn.Write: %s", showParts(ps))
			}
		}
	}
	c.need("side-door", 2)
	_ = n
	// every socket write of the package was seen by one of the analyses above
	for _, f := range c.p.Funcs {
		if fnPkg(f) != c.p.Root || isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if ok && call.Call.IsInvoke() && namedOf(call.Call.Value.Type()) == r.Socket && (call.Call.Method.Name() == "WriteText" || call.Call.Method.Name() == "WriteBinary") {
					c.ob(c.visited[in], "side-door", "covered: "+rel(c, f), in.Pos(), nil, "this socket write is reached by no analysed entry point")
				}
			}
		}
	}
}

// answerOf: the byte sequence is an encoded message or a bare token with separators; gives the token.
func (c *Chk) answerOf(ps []part) (msg, token *Term) {
	if len(ps) == 1 && ps[0].term != nil && ps[0].term.Op == OpPure && ps[0].term.Sym == "Encode" {
		m := ps[0].term.Args[0]
		return m, mf(m, c.r.mWait)
	}
	if len(ps) == 2 && ps[0].term != nil && isString(ps[0].term.Typ) && ps[1].term == nil {
		for _, ch := range ps[1].lit {
			if ch != ';' {
				return nil, nil
			}
		}
		return nil, ps[0].term
	}
	return nil, nil
}

func (c *Chk) plusHandle(root *ssa.Function) Config {
	h := c.p.method("Conn", "HandlePayload")
	if root == h {
		return c.base()
	}
	return c.plus(map[*ssa.Function]string{h: "Handle"})
}

// checkBytes: the wire event carries the encoding of msg without the excluded-sender marker.
func (c *Chk) checkBytes(pt *Path, e *Event, msg *Term, name string) {
	r := c.r
	b := e.Args[1]
	if b.Op != OpPure || b.Sym != "Encode" {
		c.ob(false, "bytes", name+" (encoding)", e.Pos, pt, "what is written is not the encoded message: %s", b)
		return
	}
	m := b.Args[0]
	st := r.Message.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		fv := st.Field(i)
		got := mf(m, fv)
		if fv == r.mFromEx {
			c.ob(pt.Facts.eqStr(got, ""), "bytes", name+" (marker)", e.Pos, pt, "the excluded-sender marker goes out: %s", got)
			continue
		}
		c.ob(got == mf(msg, fv), "bytes", name+" ("+fv.Name()+")", e.Pos, pt, "field %s goes out as %s", fv.Name(), got)
	}
	bin := pt.Facts.eval(mf(msg, r.mBinary))
	c.ob(bin != Unknown && (bin == True) == (e.Name == "neffos.Socket.WriteBinary"), "bytes", name+" (frame type)", e.Pos, pt, "the frame type does not follow SetBinary")
}

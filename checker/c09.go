package main

// C09: admission of a client.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C09"] = checkC09 }

// valOwner: t is the value of field fv of the result, by reading it or by having been put there on this path.
func valOwner(pt *Path, t *Term, fv *types.Var) *Term {
	if o := fieldBase(t, fv); o != nil {
		return o
	}
	for _, e := range pt.Events {
		if e.Kind == "Store" && e.Args[1] == t && e.Args[0].Op == OpFAddr && e.Args[0].FieldVar == fv {
			return e.Args[0].Args[0]
		}
	}
	return nil
}

// flagOwner: the atomic cell is field fv (or what it points to) of the result.
func flagOwner(pt *Path, cell *Term, fv *types.Var) *Term {
	if v, o := cellField(cell); v == fv {
		return o
	}
	return valOwner(pt, cell, fv)
}

// byteAt: t is the n-th byte of b.
func byteAt(t, b *Term, n int64) bool {
	if t == nil {
		return false
	}
	t = noConv(t)
	var base, ix *Term
	switch {
	case t.Op == OpIndex:
		base, ix = t.Args[0], t.Args[1]
	case t.Op == OpLoad && t.Args[0].Op == OpIAddr:
		base, ix = t.Args[0].Args[0], t.Args[0].Args[1]
	default:
		return false
	}
	i, ok := ix.IntVal()
	return ok && i == n && noConv(base) == b
}

// firstIs: what the path knows about b starting with the byte v.
func firstIs(pt *Path, b *Term, v byte) Tri {
	for t, k := range pt.Facts.eq {
		if byteAt(t, b, 0) {
			if n, ok := k.IntVal(); ok {
				return tri(n == int64(v))
			}
		}
	}
	for t, ks := range pt.Facts.ne {
		if byteAt(t, b, 0) {
			for _, k := range ks {
				if n, ok := k.IntVal(); ok && n == int64(v) {
					return False
				}
			}
		}
	}
	for t, v2 := range pt.Facts.b {
		if t.Op == OpPure && (t.Sym == "bytes.HasPrefix" || t.Sym == "strings.HasPrefix") && noConv(t.Args[0]) == b {
			if s, ok := textOf(t.Args[1]); ok && len(s) == 1 {
				if s[0] == v {
					return tri(v2)
				} else if v2 {
					return False
				}
			}
		}
	}
	return Unknown
}

// restOf: t is b without its first byte.
func restOf(pt *Path, t, b *Term) bool {
	t = noConv(t)
	if t == nil {
		return false
	}
	switch {
	case t.Op == OpSlice:
		n, ok := t.Args[1].IntVal()
		return ok && n == 1 && t.Args[2].IsNil() && noConv(t.Args[0]) == b
	case t.Op == OpPure && (t.Sym == "bytes.TrimPrefix" || t.Sym == "strings.TrimPrefix") && noConv(t.Args[0]) == b:
		s, ok := textOf(t.Args[1])
		return ok && len(s) == 1 && firstIs(pt, b, s[0]) == True
	}
	return false
}

// seg is one message read from the socket and what is done about it.
type seg struct {
	read        *Event
	b, typ, err *Term
	evs         []*Event
	end         string // read: the next message is read; return; cut: the analysis stopped inside
}

func (c *Chk) segments(pt *Path) []seg {
	var out []seg
	for _, e := range pt.Events {
		if e.Kind == "Invoke" && e.Name == "neffos.Socket.ReadData" {
			if n := len(out); n > 0 {
				out[n-1].end = "read"
			}
			s := seg{read: e, end: "cut"}
			if e.Res != nil && e.Res.Op == OpTuple && len(e.Res.Args) == 3 {
				s.b, s.typ, s.err = e.Res.Args[0], e.Res.Args[1], e.Res.Args[2]
			}
			out = append(out, s)
			continue
		}
		if n := len(out); n > 0 {
			out[n-1].evs = append(out[n-1].evs, e)
		}
	}
	if n := len(out); n > 0 && complete(pt) {
		out[n-1].end = "return"
	}
	return out
}

// acked: what the segment knows about the handshake at this event.
func (c *Chk) acked(pt *Path, s seg, conn *Term, ack *types.Var, upto int) Tri {
	t := Unknown
	for _, e := range s.evs {
		if e.Seq >= upto {
			break
		}
		switch e.Kind {
		case "AtomicLoad":
			if flagOwner(pt, e.Args[0], ack) == conn {
				if nonZeroRead(pt, e.Res) {
					t = True
				} else if zeroRead(pt, e.Res) && t != True {
					t = False
				}
			}
		case "AtomicStore":
			if flagOwner(pt, e.Args[0], ack) == conn {
				t = tri(isOne(e.Args[1]))
			}
		}
	}
	return t
}

// shake: the three signal bytes: the client's handshake, the server's acceptance and its refusal.
type shake struct{ hello, ok, no byte }

func (c *Chk) shake() (sh shake, found bool) {
	r := c.r
	dial := c.p.fn("Dial")
	if dial == nil {
		return
	}
	have := 0
	for _, pt := range c.explore(dial, "Dial", c.base()) {
		for _, e := range pt.Events {
			if isWire(e) {
				if s, ok := textOf(e.Args[1]); ok && len(s) == 1 {
					sh.hello = s[0]
					have |= 1
				}
			}
		}
	}
	for _, rd := range c.readers() {
		for _, pt := range c.explore(rd, "reader", c.readerConfig(rd)) {
			for _, s := range c.segments(pt) {
				var aw *Event
				for _, e := range s.evs {
					if e.Kind == "Await" {
						aw = e
					}
					if isWire(e) && aw != nil {
						ps := flatten(e.Args[1])
						if len(ps) > 0 && ps[0].term == nil && len(ps[0].lit) == 1 {
							if pt.Facts.isNil(aw.Res) {
								sh.ok = ps[0].lit[0]
								have |= 2
							} else if pt.Facts.isNonNil(aw.Res) {
								sh.no = ps[0].lit[0]
								have |= 4
							}
						}
					}
				}
			}
		}
	}
	_ = r
	if have != 7 {
		c.ob(false, "anchor", "handshake", token.NoPos, nil, "the handshake, acceptance and refusal signals were not found (%d of 7)", have)
		return sh, false
	}
	return sh, true
}

func (c *Chk) upgradePaths() (*ssa.Function, []*Path) {
	up := c.p.method("Server", "Upgrade")
	cfg := c.base()
	cfg.LoopMin = 1
	return up, c.explore(up, "Upgrade", cfg)
}

// newConnOf: the connection that the path creates.
func (c *Chk) newConnOf(pt *Path) *Term {
	for _, e := range pt.Events {
		if e.Kind == "Store" && e.Args[0].Op == OpFAddr && e.Args[0].FieldVar == c.r.socket && e.Args[0].Args[0].Op == OpAlloc {
			return e.Args[0].Args[0]
		}
	}
	return nil
}

// dynField: the event calls the function held in the named exported field of the server.
func (c *Chk) dynField(e *Event, srv *Term, name string) bool {
	if e.Kind != "Dyn" || len(e.Args) == 0 {
		return false
	}
	t := e.Args[0]
	return t.Op == OpLoad && t.Args[0].Op == OpFAddr && t.Args[0].FieldVar.Name() == name && t.Args[0].Args[0] == srv
}

func (c *Chk) srvClosedVar() *types.Var {
	cl := c.p.method("Server", "Close")
	if cl == nil {
		c.ob(false, "anchor", "Server.Close", token.NoPos, nil, "not found")
		return nil
	}
	cfg := c.base()
	for _, pt := range c.explore(cl, "Server.Close", cfg) {
		for _, e := range pt.Events {
			if e.Kind == "CAS" || e.Kind == "AtomicStore" || e.Kind == "AtomicSwap" {
				if v, o := cellField(e.Args[0]); v != nil && o != nil && namedOf(o.Typ) == c.r.Server {
					return v
				}
			}
		}
	}
	c.ob(false, "anchor", "Server.Close", cl.Pos(), nil, "it claims no flag of the server")
	return nil
}

func checkC09(c *Chk) {
	r := c.r
	c.rule("verdict", "a server connection is acknowledged only on the client's handshake byte and after the readiness verdict was awaited and is nil; a non-nil verdict is sent back as the refusal and ends the reader")
	c.rule("client", "a client connection is acknowledged only on the server's acceptance byte, whose rest becomes its ID, and is refused only on the refusal byte, whose rest becomes the error")
	c.rule("other-side", "a server never reacts to acceptance or refusal bytes and a client never to the handshake byte")
	c.rule("handled", "a message is handled only on an acknowledged connection")
	c.rule("id", "the ID is stored only by Upgrade, from the ID generators, and by a client's acknowledgement")
	c.rule("admission", "Upgrade gives the accepting verdict only after the backend's and the server's OnConnect returned nil, and otherwise gives their error as the verdict, returns it, and closes the connection if another verdict was given before")
	c.rule("verdict-sites", "nothing else accepts a server connection, except sending something to it and Connect")
	c.rule("counts", "a message that goes out on a server connection, and Connect on one, give the accepting verdict first")
	c.rule("read-error", "a read error is the verdict for whoever waits and ends the reader")
	c.rule("dial", "Dial starts the reader, sends the handshake, and returns a client exactly when the verdict is nil; otherwise the verdict's error and a closed connection")
	ack := c.ackVar()
	_, only := c.nativeFields()
	sh, ok := c.shake()
	srvClosed := c.srvClosedVar()
	if ack == nil || only == nil || !ok || srvClosed == nil {
		return
	}
	c.ob(sh.hello != sh.ok && sh.hello != sh.no && sh.ok != sh.no, "verdict", "signal bytes", token.NoPos, nil, "the signal bytes are not distinct: %q", []byte{sh.hello, sh.ok, sh.no})
	for _, rd := range c.readers() {
		if len(rd.Params) == 0 || namedOf(rd.Params[0].Type()) != r.Conn {
			c.ob(false, "anchor", rel(c, rd), rd.Pos(), nil, "the reader is not a method of the connection")
			continue
		}
		conn := TT.mk(OpParam, rd.Params[0].Name(), rd.Params[0].Type())
		name := rel(c, rd)
		for _, pt := range c.explore(rd, "reader", c.readerConfig(rd)) {
			for _, s := range c.segments(pt) {
				if s.b == nil {
					c.ob(false, "anchor", name, s.read.Pos, pt, "unexpected results of ReadData")
					continue
				}
				c.shakeSegment(pt, s, conn, name, ack, sh)
			}
		}
	}
	// the ID
	up, ups := c.upgradePaths()
	nID := 0
	for _, f := range c.p.Funcs {
		if isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVarOf(fa) == r.connID {
						nID++
						c.ob(c.visited[in], "id", "covered: "+rel(c, f), in.Pos(), nil, "the ID is stored where neither Upgrade nor the reader gets")
					}
				}
			}
		}
	}
	c.ob(nID >= 2, "id", "sites", token.NoPos, nil, "the ID is stored at %d places", nID)
	srv := TT.mk(OpParam, up.Params[0].Name(), up.Params[0].Type())
	var custom *Term
	for _, p := range up.Params {
		if n := namedOf(p.Type()); n != nil && n.Obj().Name() == "IDGenerator" {
			custom = TT.mk(OpParam, p.Name(), p.Type())
		}
	}
	for _, pt := range ups {
		k := c.newConnOf(pt)
		if k == nil {
			continue
		}
		var gens []*Event
		for _, e := range pt.Events {
			if e.Kind == "Dyn" && (e.Args[0] == custom || c.dynField(e, srv, "IDGenerator")) {
				gens = append(gens, e)
			}
			if e.Kind == "Store" && e.Args[0].Op == OpFAddr && e.Args[0].FieldVar == r.connID {
				ok := e.Args[0].Args[0] == k && len(gens) == 1 && e.Args[1] == gens[0].Res
				if ok {
					if gens[0].Args[0] == custom {
						ok = pt.Facts.isNonNil(custom)
					} else {
						ok = custom == nil || pt.Facts.isNil(custom)
					}
				}
				c.ob(ok, "id", "Server.Upgrade", e.Pos, pt, "the ID is %s", e.Args[1])
			}
		}
		c.admission(pt, up, srv, k, only, srvClosed)
	}
	c.verdictSites(up, only)
	c.dialRules(ack, only, sh)
	c.need("verdict", 5)
	c.need("client", 3)
	c.need("other-side", 1)
	c.need("handled", 1)
	c.need("id", 3)
	c.need("admission", 6)
	c.need("verdict-sites", 2)
	c.need("read-error", 2)
	c.need("dial", 6)
}

func (c *Chk) shakeSegment(pt *Path, s seg, conn *Term, name string, ack *types.Var, sh shake) {
	r := c.r
	side := c.side(pt, conn)
	f := pt.Facts
	hello, okB, noB := firstIs(pt, s.b, sh.hello), firstIs(pt, s.b, sh.ok), firstIs(pt, s.b, sh.no)
	var aw, ackE, idE *Event
	var verdicts, handles, wires, closes []*Event
	for _, e := range s.evs {
		switch {
		case e.Kind == "Await" && valOwner(pt, e.Args[0], r.readiness) == conn:
			aw = e
		case e.Kind == "AtomicStore" && flagOwner(pt, e.Args[0], ack) == conn && !isZero(e.Args[1]):
			ackE = e
		case e.Kind == "Store" && isAddrOf(e.Args[0], conn, r.connID):
			idE = e
		case e.Kind == "Verdict" && valOwner(pt, e.Args[0], r.readiness) == conn:
			verdicts = append(verdicts, e)
		case e.Kind == "Handle":
			handles = append(handles, e)
		case e.Kind == "Close" && e.Args[0] == conn:
			closes = append(closes, e)
		case isWire(e):
			wires = append(wires, e)
		}
	}
	// read errors
	if f.isNonNil(s.err) {
		ok := false
		for _, v := range verdicts {
			ok = ok || v.Args[1] == s.err
		}
		c.ob(ok && len(verdicts) == 1 && ackE == nil && len(handles) == 0, "read-error", name, s.read.Pos, pt, "a read error is not given as the verdict")
		if s.end != "cut" {
			c.ob(s.end == "return", "read-error", name+" (ends)", s.read.Pos, pt, "reading goes on after an error")
		}
		return
	}
	c.ob(f.isNil(s.err) || (len(handles) == 0 && ackE == nil && aw == nil), "read-error", name+" (looked at)", s.read.Pos, pt, "a message is used although reading it may have failed")
	before := c.acked(pt, s, conn, ack, 1<<30)
	if ackE != nil {
		before = c.acked(pt, s, conn, ack, ackE.Seq)
	}
	for _, h := range handles {
		c.ob(c.acked(pt, s, conn, ack, h.Seq) == True, "handled", c.fnName(h), h.Pos, pt, "a message is handled although the connection is not acknowledged")
	}
	if ackE != nil {
		switch {
		case side > 0:
			c.ob(aw != nil && aw.Seq < ackE.Seq && f.isNil(aw.Res) && hello == True, "verdict", name+" (acknowledged)", ackE.Pos, pt, "a server connection is acknowledged without its handshake or its verdict")
		case side < 0:
			c.ob(okB == True && idE != nil, "client", name+" (acknowledged)", ackE.Pos, pt, "a client connection is acknowledged without the server's acceptance and its ID")
			ok := false
			for _, v := range verdicts {
				ok = ok || (f.isNil(v.Args[1]) && idE != nil && v.Seq > idE.Seq && v.Seq > ackE.Seq)
			}
			c.ob(ok, "client", name+" (verdict)", ackE.Pos, pt, "the acceptance is not given as the verdict, after the ID is in place")
		default:
			c.ob(false, "verdict", name+" (acknowledged)", ackE.Pos, pt, "a connection of an unknown side is acknowledged")
		}
	}
	if idE != nil {
		c.ob(side < 0 && okB == True && restOf(pt, idE.Args[1], s.b), "id", name, idE.Pos, pt, "the ID becomes %s", idE.Args[1])
	}
	for _, v := range verdicts {
		if f.isNil(v.Args[1]) {
			c.ob(side < 0 && okB == True, "client", name+" (accepting verdict)", v.Pos, pt, "the reader accepts a connection without the server's acceptance")
			continue
		}
		t := v.Args[1]
		ok := side < 0 && noB == True && errText(t) != nil && restOf(pt, errText(t), s.b)
		c.ob(ok, "client", name+" (refusing verdict)", v.Pos, pt, "the reader refuses a connection with %s", t)
	}
	if aw != nil {
		c.ob(side > 0 && hello == True, "verdict", name+" (awaited on the handshake)", aw.Pos, pt, "the verdict is awaited on something else than the handshake")
		ok := len(wires) > 0 && wires[0].Seq > aw.Seq && wires[0].Name == "neffos.Socket.WriteText"
		if ok {
			ps := flatten(wires[0].Args[1])
			switch f.nilness(aw.Res) {
			case True:
				ok = len(ps) == 2 && ps[0].lit == string([]byte{sh.ok}) && ps[1].term != nil && fieldBase(ps[1].term, r.connID) == conn
				c.ob(ok && len(wires) == 1, "verdict", name+" (acceptance)", wires[0].Pos, pt, "the acceptance sent is %s", showParts(ps))
				c.ob(ackE != nil, "verdict", name+" (accepted)", aw.Pos, pt, "an accepted connection is not acknowledged")
			case False:
				ok = len(ps) == 2 && ps[0].lit == string([]byte{sh.no}) && isErrText(ps[1].term, aw.Res)
				c.ob(ok && len(wires) == 1, "verdict", name+" (refusal)", wires[0].Pos, pt, "the refusal sent is %s", showParts(ps))
				if s.end != "cut" {
					c.ob(s.end == "return" && len(closes) > 0 && len(handles) == 0, "verdict", name+" (ends)", aw.Pos, pt, "a refused connection goes on")
				}
			default:
				c.ob(false, "verdict", name+" (looked at)", aw.Pos, pt, "the verdict is not looked at")
			}
		} else if len(pt.Events) > 0 && s.end != "cut" {
			c.ob(false, "verdict", name+" (answered)", aw.Pos, pt, "the handshake is not answered")
		}
	}
	if s.end == "cut" || before != False {
		return
	}
	// unacknowledged: signals are acted on by the side they are for
	switch {
	case side > 0 && hello == True:
		c.ob(aw != nil, "verdict", name+" (handshake)", s.read.Pos, pt, "the handshake is ignored")
	case side < 0 && okB == True:
		c.ob(ackE != nil, "client", name+" (acceptance)", s.read.Pos, pt, "the acceptance is ignored")
	case side < 0 && noB == True:
		n := 0
		for _, v := range verdicts {
			if f.isNonNil(v.Args[1]) {
				n++
			}
		}
		c.ob(n == 1 && s.end == "return", "client", name+" (refusal)", s.read.Pos, pt, "the refusal is ignored")
	default:
		c.ob(ackE == nil && aw == nil && idE == nil && len(verdicts) == 0 && len(wires) == 0, "other-side", name, s.read.Pos, pt, "something else than the expected signal is acted on")
	}
}

// errText: t is a new error with that text.
func errText(t *Term) *Term {
	if t == nil || len(t.Args) == 0 {
		return nil
	}
	if t.Op == OpPure || t.Op == OpFresh || t.Op == OpIface {
		switch t.Sym {
		case "errors.New":
			return t.Args[0]
		case "fmt.Errorf":
			if s, ok := textOf(t.Args[0]); ok && (s == "%s" || s == "%v") && len(t.Args) > 1 && t.Args[1].Op == OpArr && len(t.Args[1].Args) == 1 {
				return t.Args[1].Args[0]
			}
		}
		if t.Op == OpIface {
			return errText(t.Args[0])
		}
	}
	return nil
}

// isErrText: t is the text of err.
func isErrText(t, err *Term) bool {
	t = noConv(t)
	return t != nil && len(t.Args) > 0 && t.Args[0] == err && (t.Op == OpFresh || t.Op == OpPure) && (t.Sym == "error.Error" || len(t.Sym) > 5 && t.Sym[:5] == "error")
}

func (c *Chk) admission(pt *Path, up *ssa.Function, srv, k *Term, only, srvClosed *types.Var) {
	r := c.r
	f := pt.Facts
	name := "Server.Upgrade"
	var calls, readers, closes []*Event
	var yes, no []*Event
	var aw *Event
	native, sawClosed := 0, false
	for _, e := range pt.Events {
		switch {
		case e.Kind == "Invoke" && e.Name == "neffos.StackExchange.OnConnect", c.dynField(e, srv, "OnConnect"):
			calls = append(calls, e)
		case e.Kind == "Store" && isAddrOf(e.Args[0], k, only) && isOne(e.Args[1]):
			native = e.Seq
		case e.Kind == "Verdict" && valOwner(pt, e.Args[0], r.readiness) == k:
			if f.isNil(e.Args[1]) {
				if native == 0 || len(readers) > 0 || len(calls) > 0 {
					yes = append(yes, e)
				}
			} else {
				no = append(no, e)
			}
		case e.Kind == "Await" && valOwner(pt, e.Args[0], r.readiness) == k:
			aw = e
		case e.Kind == "Close" && e.Args[0] == k:
			closes = append(closes, e)
		case c.goReader(e):
			readers = append(readers, e)
		case e.Kind == "AtomicLoad":
			if v, o := cellField(e.Args[0]); v == srvClosed && o == srv && nonZeroRead(pt, e.Res) {
				sawClosed = true
			}
		}
	}
	var refused *Term
	all := true
	for _, e := range calls {
		c.ob(len(e.Args) >= 2 && e.Args[1] == k, "admission", name+" (asked about)", e.Pos, pt, "OnConnect is asked about another connection")
		switch f.nilness(e.Res) {
		case False:
			if refused == nil {
				refused = e.Res
			}
		case Unknown:
			all = false
		}
	}
	for _, y := range yes {
		ok := refused == nil && all
		for _, e := range calls {
			ok = ok && e.Seq < y.Seq
		}
		// every configured callback was asked
		ok = ok && c.askedAll(pt, srv, calls, y.Seq)
		c.ob(ok, "admission", name+" (accepting)", y.Pos, pt, "the connection is accepted before, or although, somebody did not")
	}
	if !complete(pt) {
		c.ob(pt.Outcome != "panic", "admission", name+" (panic)", up.Pos(), pt, "it can panic")
		return
	}
	if len(pt.Results) != 2 {
		return
	}
	res, err := pt.Results[0], pt.Results[1]
	switch {
	case sawClosed:
		c.ob(f.isNil(res) && f.isNonNil(err) && len(closes) > 0 && len(yes) == 0, "admission", name+" (server closed)", up.Pos(), pt, "a connection of a closed server is not closed")
	case refused != nil:
		c.ob(f.isNil(res) && err == refused, "admission", name+" (refused)", up.Pos(), pt, "the refusal is returned as %s, %s", res, err)
		told := false
		for _, n := range no {
			told = told || n.Args[1] == refused
		}
		c.ob(told && len(no) == 1, "admission", name+" (verdict)", up.Pos(), pt, "the refusal is not the verdict")
		ok := false
		if aw != nil && len(no) > 0 && aw.Seq > no[0].Seq {
			switch f.nilness(aw.Res) {
			case True:
				ok = len(closes) > 0 && closes[0].Seq > aw.Seq
			case False:
				ok = len(closes) == 0
			}
		}
		c.ob(ok, "admission", name+" (ended)", up.Pos(), pt, "a refused connection that was accepted before stays open, or one that was not is closed before it is told")
		c.ob(len(readers) == 1, "admission", name+" (told)", up.Pos(), pt, "nobody tells the refused client")
	default:
		c.ob(res == k && f.isNil(err) && len(yes) == 1 && len(no) == 0 && len(closes) == 0, "admission", name+" (accepted)", up.Pos(), pt, "an accepted connection is returned as %s, %s with %d accepting verdicts", res, err, len(yes))
		c.ob(len(readers) == 1 && len(readers[0].Args) > 1 && readers[0].Args[1] == k, "admission", name+" (reader)", up.Pos(), pt, "%d readers are started", len(readers))
	}
}

// askedAll: the backend and the server's callback were asked before seq, or are not there.
func (c *Chk) askedAll(pt *Path, srv *Term, calls []*Event, seq int) bool {
	ok := true
	for _, name := range []string{"StackExchange", "OnConnect"} {
		asked := false
		for _, e := range calls {
			if e.Seq < seq && ((name == "OnConnect") == (e.Kind == "Dyn")) {
				asked = true
			}
		}
		if asked {
			continue
		}
		none := false
		for _, e := range pt.Events {
			if e.Kind == "Load" && e.Args[0].Op == OpFAddr && e.Args[0].FieldVar.Name() == name && e.Args[0].Args[0] == srv && pt.Facts.isNil(e.Res) {
				none = true
			}
		}
		ok = ok && none
	}
	return ok
}

func (c *Chk) verdictSites(up *ssa.Function, only *types.Var) {
	r := c.r
	pred := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := ci.Common().StaticCallee()
		return g != nil && r.baseOpaque(g) == "Verdict"
	}
	rds := map[*ssa.Function]bool{}
	for _, rd := range c.readers() {
		rds[rd] = true
	}
	w, cn := c.p.method("Conn", "Write"), c.p.method("Conn", "Connect")
	for _, root := range c.rootsFor(pred) {
		if root == up || rds[root] || r.baseOpaque(root) == "Verdict" {
			continue
		}
		cfg := c.rootConfig(root)
		cfg.LoopMin = 1
		for _, pt := range c.explore(root, "verdicts:"+root.Name(), cfg) {
			for _, e := range pt.Events {
				if e.Kind != "Verdict" || pt.Facts.isNonNil(e.Args[1]) || inside(e, up) {
					continue // Upgrade is judged on its own
				}
				conn := valOwner(pt, e.Args[0], r.readiness)
				name := rel(c, root) + " (" + c.fnName(e) + ")"
				if conn == nil {
					c.ob(false, "verdict-sites", name, e.Pos, pt, "a verdict on an unknown connection")
					continue
				}
				ok := false
				switch {
				case conn.Op == OpAlloc:
					for _, s := range pt.Events {
						ok = ok || (s.Kind == "Store" && s.Seq < e.Seq && isAddrOf(s.Args[0], conn, only) && isOne(s.Args[1]))
					}
				case c.side(pt, conn) < 0:
					ok = false
				case inside(e, cn):
					ok = true
				case inside(e, w):
					for _, s := range pt.Events {
						ok = ok || (isWire(s) && s.Seq > e.Seq)
					}
				}
				c.ob(ok, "verdict-sites", name, e.Pos, pt, "a connection is accepted here")
			}
		}
	}
	c.covered("verdict-sites", pred)
	// what counts as acceptance
	for _, root := range []*ssa.Function{w, cn} {
		if root == nil {
			c.ob(false, "anchor", "Conn.Write, Conn.Connect", token.NoPos, nil, "not found")
			continue
		}
		conn := TT.mk(OpParam, root.Params[0].Name(), root.Params[0].Type())
		cfg := c.rootConfig(root)
		cfg.LoopMin = 1
		for _, pt := range c.explore(root, "verdicts:"+root.Name(), cfg) {
			if c.side(pt, conn) < 0 {
				continue // a client's connection
			}
			given := false
			for _, e := range pt.Events {
				switch {
				case e.Kind == "Verdict" && valOwner(pt, e.Args[0], r.readiness) == conn && pt.Facts.isNil(e.Args[1]):
					given = true
				case isWire(e) && root == w:
					c.ob(given, "counts", rel(c, root), e.Pos, pt, "a message goes out on a server connection that is not accepted by it")
				case (e.Kind == "Ask" || e.Kind == "Sleep") && root == cn:
					c.ob(given, "counts", rel(c, root), e.Pos, pt, "a server connection is connected to a namespace without being accepted by it")
				}
			}
		}
	}
	c.need("counts", 2)
	// acknowledged elsewhere
	ack := c.ackVar()
	cl := c.p.method("Conn", "Close")
	c.explore(cl, "Conn.Close", c.except("Close"))
	c.atomicOn(ack, func(f *ssa.Function, in ssa.Instruction, op string) {
		if len(op) >= 4 && op[:4] == "Load" {
			return
		}
		c.ob(c.visited[in], "verdict-sites", "acknowledged in "+rel(c, f), in.Pos(), nil, "the acknowledgement is changed where no analysed entry point gets")
	})
	for _, root := range c.rootsFor(func(in ssa.Instruction) bool {
		hit := false
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := ci.Common().StaticCallee()
		if g != nil && pkgPathOf(g) == "sync/atomic" && len(ci.Common().Args) > 0 {
			if u, ok := ci.Common().Args[0].(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					hit = fieldVarOf(fa) == ack
				}
			}
			if fa, ok := ci.Common().Args[0].(*ssa.FieldAddr); ok {
				hit = hit || fieldVarOf(fa) == ack
			}
		}
		return hit && len(g.Name()) >= 4 && g.Name()[:4] != "Load"
	}) {
		if rds[root] {
			continue
		}
		cfg := c.rootConfig(root)
		cfg.LoopMin = 1
		if root == cl {
			cfg = c.except("Close")
		}
		for _, pt := range c.explore(root, "acks:"+root.Name(), cfg) {
			for _, e := range pt.Events {
				if (e.Kind == "AtomicStore" || e.Kind == "CAS" || e.Kind == "AtomicAdd") && e.Gor == 0 {
					conn := flagOwner(pt, e.Args[0], ack)
					if conn == nil {
						continue
					}
					ok := e.Kind == "AtomicStore" && isZero(e.Args[1])
					if conn.Op == OpAlloc {
						for _, s := range pt.Events {
							ok = ok || (s.Kind == "Store" && isAddrOf(s.Args[0], conn, only) && isOne(s.Args[1]))
						}
					}
					c.ob(ok, "verdict-sites", rel(c, root)+" (acknowledges)", e.Pos, pt, "a connection is acknowledged without its handshake")
				}
			}
		}
	}
}

func (c *Chk) dialRules(ack, only *types.Var, sh shake) {
	r := c.r
	dial := c.p.fn("Dial")
	for _, pt := range c.explore(dial, "Dial", c.base()) {
		k := c.newConnOf(pt)
		f := pt.Facts
		if !complete(pt) {
			continue
		}
		if len(pt.Results) != 2 {
			c.ob(false, "anchor", "Dial", dial.Pos(), pt, "unexpected results")
			return
		}
		res, err := pt.Results[0], pt.Results[1]
		if k == nil {
			c.ob(f.isNil(res) && f.isNonNil(err), "dial", "Dial (not connected)", dial.Pos(), pt, "returns %s, %s", res, err)
			continue
		}
		var hello, rd, aw, cl *Event
		native := false
		for _, e := range pt.Events {
			switch {
			case isWire(e):
				c.ob(hello == nil, "dial", "Dial (handshake once)", e.Pos, pt, "more than the handshake is sent")
				hello = e
			case c.goReader(e) && len(e.Args) > 1 && e.Args[1] == k:
				c.ob(rd == nil, "dial", "Dial (one reader)", e.Pos, pt, "two readers")
				rd = e
			case e.Kind == "Await" && valOwner(pt, e.Args[0], r.readiness) == k:
				aw = e
			case e.Kind == "Close" && e.Args[0] == k:
				cl = e
			case e.Kind == "Store" && isAddrOf(e.Args[0], k, only):
				native = isOne(e.Args[1])
			}
		}
		c.ob(rd != nil && (aw == nil || rd.Seq < aw.Seq), "dial", "Dial (reader)", dial.Pos(), pt, "no reader is started before the verdict is awaited")
		if native {
			c.ob(hello == nil && aw == nil && f.isNonNil(res) && f.isNil(err), "dial", "Dial (native only)", dial.Pos(), pt, "a native-only client waits for a handshake")
		} else {
			okH := false
			if hello != nil {
				s, ok := textOf(hello.Args[1])
				okH = ok && s == string([]byte{sh.hello}) && hello.Name == "neffos.Socket.WriteText" && hello.Args[0] == c.fieldAt(pt, k, r.socket, hello.Seq)
			}
			c.ob(okH, "dial", "Dial (handshake)", dial.Pos(), pt, "the handshake is not sent")
			if hello == nil {
				continue
			}
			sent := f.nilness(hello.Res)
			if sent == False {
				c.ob(f.isNil(res) && f.isNonNil(err) && cl != nil, "dial", "Dial (not sent)", hello.Pos, pt, "a failed handshake returns %s, %s", res, err)
				continue
			}
			c.ob(aw != nil && aw.Seq > hello.Seq && sent == True, "dial", "Dial (awaits)", hello.Pos, pt, "the verdict is not awaited")
			if aw == nil {
				continue
			}
			switch f.nilness(aw.Res) {
			case True:
				c.ob(f.isNonNil(res) && f.isNil(err) && cl == nil, "dial", "Dial (accepted)", aw.Pos, pt, "an accepted client is returned as %s, %s", res, err)
			case False:
				c.ob(f.isNil(res) && err == aw.Res && cl != nil, "dial", "Dial (refused)", aw.Pos, pt, "a refused client returns %s, %s", res, err)
			default:
				c.ob(false, "dial", "Dial (looked at)", aw.Pos, pt, "the verdict is not looked at")
			}
		}
		if f.isNonNil(res) && res.Op == OpAlloc {
			st := res.Typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			ok := 0
			for i := 0; i < st.NumFields(); i++ {
				v := c.fieldAt(pt, res, st.Field(i), 1<<30)
				if v == nil {
					continue
				}
				switch {
				case namedOf(st.Field(i).Type()) == r.Conn:
					if v == k {
						ok++
					}
				case st.Field(i).Name() == "ID":
					if fieldBase(v, r.connID) == k {
						for _, e := range pt.Events {
							if e.Kind == "Load" && e.Res == v && (aw == nil || e.Seq > aw.Seq) {
								ok++
								break
							}
						}
					} else if native && isZeroTerm(v) {
						ok++
					}
				case st.Field(i).Name() == "NotifyClose":
					if valOwner(pt, v, r.closeCh) == k {
						ok++
					}
				}
			}
			c.ob(ok == 3, "dial", "Dial (client)", dial.Pos(), pt, "the client does not carry its connection, ID and close signal")
		}
	}
}

// inside: the event happens in a call of fn.
func inside(e *Event, fn *ssa.Function) bool {
	for x := e.Ctx; x != nil; x = x.Parent {
		if x.Fn == fn {
			return true
		}
	}
	return false
}

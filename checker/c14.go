package main

// C14: a broadcast reaches exactly the addressed connections.
// C15: asynchronous broadcasts are neither lost nor duplicated.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C14"] = checkC14 }

func (c *Chk) isMsgs(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), c.r.Message)
}

func (c *Chk) isConnPtr(t types.Type) bool { return ptrTo(c.r.Conn)(t) }

// visited: the elements of a list that the path's loop over it went through, in order, and whether the
// path saw the end of the list.
func visited(pt *Path, list *Term) (ixs []*Term, ended, ok bool) {
	if lenZero(pt, list) {
		return nil, true, true
	}
	return counted(pt, mkLen(list))
}

// counted: the same for a loop up to a number.
func counted(pt *Path, ln *Term) (ixs []*Term, ended, ok bool) {
	boolT := types.Typ[types.Bool]
	switch pt.Facts.eval(mkBin(token.LSS, TT.Int(0), ln, boolT)) {
	case False:
		return nil, true, true
	case Unknown:
		return nil, false, true
	}
	cur := TT.Int(0)
	ixs = append(ixs, cur)
	for n := 0; n < 10; n++ {
		want := mkBin(token.ADD, cur, TT.Int(1), intT)
		if pt.Facts.eval(mkBin(token.LSS, want, ln, boolT)) == False {
			return ixs, true, true
		}
		var next *Term
		for a, v := range pt.Facts.b {
			if a.Op != OpBin || a.Sym != "<" || a.Args[1] != ln {
				continue
			}
			x := a.Args[0]
			if x == cur || x != want && unwound(x) != want {
				continue
			}
			if tri(v) == False {
				return ixs, true, true
			}
			next = x
		}
		if next == nil {
			return ixs, false, true
		}
		if next == want {
			// a loop over a number keeps its count in a variable of its own
			if p := anyTerm(pt, func(t *Term) bool {
				return t.Op == OpPhi && strings.HasPrefix(t.Sym, "rangeint") && len(t.Args) == 2 && t.Args[1] == want
			}); p != nil {
				next = p
			}
		}
		ixs = append(ixs, next)
		cur = next
	}
	return ixs, false, false
}

// elems gives the terms that stand for a field of an element of the list on this path.
func elemTerms(pt *Path, list, ix *Term, fv *types.Var) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	take := func(t *Term) bool {
		if t.FieldVar == fv && !seen[t] {
			if s, i, ok := indexed(t); ok {
				s, i = place(s, i)
				l2, x2 := place(list, ix)
				if s == l2 && i == x2 {
					seen[t] = true
					out = append(out, t)
				}
			}
		}
		if t.Op == OpLoad && t.Args[0].Op == OpFAddr && t.Args[0].FieldVar == fv && !seen[t] {
			if s, i, ok := indexed(t); ok && s == list && i == ix {
				seen[t] = true
				out = append(out, t)
			}
		}
		return false
	}
	for a := range pt.Facts.b {
		a.any(take)
	}
	for a := range pt.Facts.eq {
		a.any(take)
	}
	for a := range pt.Facts.ne {
		a.any(take)
	}
	for _, e := range pt.Events {
		for _, a := range e.Args {
			a.any(take)
		}
		if e.Res != nil {
			e.Res.any(take)
		}
	}
	return out
}

// idTerms: what was read as the connection's identifier.
func (c *Chk) idTerms(pt *Path, conn *Term) []*Term {
	out := []*Term{of(conn, c.r.connID)}
	for _, e := range pt.Events {
		if e.Kind == "Load" && isAddrOf(e.Args[0], conn, c.r.connID) {
			out = append(out, e.Res)
		}
	}
	return out
}

func (c *Chk) eqID(pt *Path, xs []*Term, conn *Term) Tri {
	for _, x := range xs {
		for _, id := range c.idTerms(pt, conn) {
			if v := pt.Facts.equal(x, id); v != Unknown {
				return v
			}
		}
	}
	return Unknown
}

// publishers: the functions that offer a list of messages to one connection.
func (c *Chk) publishers() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	w := c.p.method("Conn", "Write")
	calls := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && w != nil && ci.Common().StaticCallee() == w
	}
	for _, f := range c.p.Funcs {
		if fnPkg(f) != c.p.Root || isTestFile(c.p, f) || f.Synthetic != "" {
			continue
		}
		conn, list := false, false
		for _, p := range f.Params {
			conn = conn || c.isConnPtr(p.Type())
			list = list || c.isMsgs(p.Type())
		}
		if conn && list && c.p.reaches(f, nil, calls) {
			out[f] = true
		}
	}
	// one that hands the list on to another is not the one that does it
	inner := map[*ssa.Function]bool{}
	for f := range out {
		if !c.p.reaches(f, nil, func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			g := ci.Common().StaticCallee()
			return g != nil && g != f && out[g]
		}) {
			inner[f] = true
		}
	}
	return inner
}

func (c *Chk) offerConfig(root *ssa.Function, pubs map[*ssa.Function]bool) Config {
	base := c.rootConfig(root)
	return Config{LoopMin: 1, Opaque: func(fn *ssa.Function) string {
		if pubs[fn] && fn != root {
			return "Offer"
		}
		return base.Opaque(fn)
	}}
}

// offered: what a path does with one list of messages for one connection.
// from and to bound the part of the path that is looked at.
func (c *Chk) offered(pt *Path, conn, list *Term, from, to int, name string, pos token.Pos) (stopped *Event) {
	r := c.r
	ixs, ended, ok := visited(pt, list)
	if !c.ob(ok, "every", name+" (loop)", pos, pt, "the loop over the messages cannot be followed") {
		return nil
	}
	var writes []*Event
	for _, e := range pt.Events {
		if e.Kind == "Write" && e.Seq > from && e.Seq < to {
			writes = append(writes, e)
		}
	}
	n := 0
	for k, ix := range ixs {
		var wr *Event
		if n < len(writes) {
			if s, i, ok := indexed(writes[n].Args[1]); ok {
				s, i = place(s, i)
				if s == list && i == ix {
					wr = writes[n]
					n++
				}
			}
		}
		fr, toT := elemTerms(pt, list, ix, r.mFrom), elemTerms(pt, list, ix, r.mTo)
		isFrom := c.eqID(pt, fr, conn)
		for _, x := range fr {
			if pt.Facts.isEmpty(x) && isFrom == Unknown {
				isFrom = False
			}
		}
		addressed := Unknown
		for _, x := range toT {
			if pt.Facts.isEmpty(x) {
				addressed = True
			}
		}
		if v := c.eqID(pt, toT, conn); addressed == Unknown {
			if v == True {
				addressed = True
			} else if v == False {
				for _, x := range toT {
					if nonEmpty(pt, x) {
						addressed = False
					}
				}
			}
		}
		if wr != nil {
			c.ob(wr.Args[0] == conn, "every", name+" (connection)", wr.Pos, pt, "the message is written to another connection")
			c.ob(isFrom == False, "excluded", name, wr.Pos, pt, "a message may be offered to the connection it excludes by ID")
			c.ob(addressed == True, "addressed", name, wr.Pos, pt, "a message for a named recipient may be offered to another connection")
			m := wr.Args[1]
			whole := m.Op == OpIndex || m.Op == OpLoad || m.Op == OpNextVal
			if m.Op == OpStruct {
				whole = true
				st := r.Message.Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					fv := st.Field(i)
					if fv == r.mFrom || fv == r.mTo {
						continue
					}
					s, x, ok := indexed(mf(m, fv))
					same := ok && s == list && x == ix && mf(m, fv).FieldVar == fv
					whole = whole && same
				}
			}
			c.ob(whole, "every", name+" (unchanged)", wr.Pos, pt, "the message is changed on its way: %s", m)
			if k == len(ixs)-1 && !ended {
				if complete(pt) || to < 1<<30 {
					stopped = wr
				}
			}
			continue
		}
		if k == len(ixs)-1 && pt.Outcome != "return" && !c.turnedList(pt) {
			continue // cut off inside this turn
		}
		c.ob(isFrom == True || addressed == False, "every", name+" (skipped)", pos, pt, "a message is skipped although the connection is addressed and not excluded")
		if k == len(ixs)-1 && !ended && complete(pt) {
			c.ob(false, "every", name+" (rest)", pos, pt, "a message that is not for this connection ends the delivery of the others")
		}
	}
	c.ob(n == len(writes), "every", name+" (once)", pos, pt, "a message is offered twice or out of order")
	if len(ixs) == 0 && !ended && complete(pt) {
		c.ob(false, "every", name+" (all)", pos, pt, "the messages are not offered")
	}
	return stopped
}

func checkC14(c *Chk) {
	r := c.r
	c.rule("copied", "Server.Broadcast gives a copy of the caller's messages to exactly one of: the backend if there is one, the server's loop if it delivers in order, the list that the connections wait on; the caller's own messages are never written to")
	c.rule("marked", "every message handed on carries no token, the excluded connection's own server ID if a connection or namespace connection is excluded, the excluded text ID otherwise, and is otherwise the caller's")
	c.rule("every", "for each message of the list in turn: it is written, unchanged and once, to the connection, or skipped because the connection is excluded or not the named recipient; the rest is dropped only after a failed write on a connection found closed")
	c.rule("excluded", "a message is written only where its excluded ID is known to differ from the connection's ID; Conn.Write refuses the excluded connection")
	c.rule("addressed", "a message is written only where no recipient is named or the connection's ID is that recipient")
	c.rule("all-connections", "the server's loop offers every received list to every registered connection")
	c.rule("identity", "the server ID of a connection names the connection object itself and has the form that decoding recognises")
	c.rule("handles", "a namespace connection's Broadcast gives its messages to its own server's Broadcast once, excluding nobody, and its BroadcastOthers excluding its own connection")
	c.handleRules()
	c.broadcastRules()
	pubs := c.publishers()
	closed := c.closedVar()
	for _, f := range c.p.Funcs {
		if !pubs[f] {
			continue
		}
		name := rel(c, f)
		conn, list := c.param(f, c.isConnPtr), c.param(f, c.isMsgs)
		cfg := c.offerConfig(f, nil)
		for _, pt := range c.explore(f, "offer:"+name, cfg) {
			stop := c.offered(pt, conn, list, -1, 1<<30, name, f.Pos())
			if stop != nil && complete(pt) {
				ok := c.closedSeenAfter(pt, closed, conn, stop.Seq)
				c.ob(ok && pt.Facts.is(stop.Res, false), "every", name+" (stops)", stop.Pos, pt, "the delivery stops although the connection is not found closed after a failed write")
			}
		}
	}
	c.loopOffers(pubs)
	// the excluded connection is refused by Write
	if w := c.p.method("Conn", "Write"); w != nil && len(w.Params) == 2 {
		conn, msg := selfOf(w), TT.mk(OpParam, w.Params[1].Name(), w.Params[1].Type())
		for _, pt := range c.explore(w, "Conn.Write", c.except("Write")) {
			for _, e := range pt.Events {
				if isWire(e) {
					c.ob(c.excluded(pt, conn, msg) == False, "excluded", "Conn.Write", e.Pos, pt, "the message may be written to the excluded connection")
				}
			}
		}
	} else {
		c.ob(false, "anchor", "Conn.Write", token.NoPos, nil, "not found")
	}
	// the identity by which a connection is excluded
	if up, paths := c.upgradePaths(); up != nil {
		for _, pt := range paths {
			conn := c.newConnOf(pt)
			if conn == nil {
				continue
			}
			for _, e := range pt.Events {
				if e.Kind != "Send" || e.Args[1] != conn {
					continue
				}
				sid := c.fieldAt(pt, conn, r.connSID, e.Seq)
				names := sid != nil && sid.any(func(t *Term) bool { return t == conn })
				c.ob(names, "identity", "Server.Upgrade", e.Pos, pt, "the server ID does not name the connection: %s", sid)
			}
		}
	}
	c.need("copied", 3)
	c.need("marked", 4)
	c.need("every", 6)
	c.need("excluded", 2)
	c.need("addressed", 1)
	c.need("all-connections", 1)
	c.need("identity", 1)
}

// handleRules: the broadcasts started from a namespace connection.
func (c *Chk) handleRules() {
	r := c.r
	cast := c.p.method("Server", "Broadcast")
	if cast == nil {
		return
	}
	for _, n := range []string{"Broadcast", "BroadcastOthers"} {
		f := c.p.method("NSConn", n)
		if f == nil {
			c.ob(false, "anchor", "NSConn."+n, token.NoPos, nil, "not found")
			continue
		}
		self, name := selfOf(f), rel(c, f)
		list := c.param(f, c.isMsgs)
		for _, pt := range c.explore(f, "handle:"+n, c.plus(map[*ssa.Function]string{cast: "Cast"})) {
			if !complete(pt) {
				continue
			}
			var cs []*Event
			for _, e := range pt.Events {
				if e.Kind == "Cast" {
					cs = append(cs, e)
				}
			}
			if !c.ob(len(cs) == 1 && len(cs[0].Args) == 3, "handles", name+" (once)", f.Pos(), pt, "broadcast %d times", len(cs)) {
				continue
			}
			e := cs[0]
			conn := of(self, r.nsConn)
			c.ob(e.Args[0] == of(conn, r.connServer) || e.Args[0].IsNil() && pt.Facts.isNil(of(conn, r.connServer)), "handles", name+" (server)", e.Pos, pt, "another server's broadcast is used: %s", e.Args[0])
			c.ob(e.Args[2] == list, "handles", name+" (messages)", e.Pos, pt, "other messages are broadcast: %s", e.Args[2])
			x := unbox(e.Args[1])
			if n == "Broadcast" {
				c.ob(e.Args[1].IsNil(), "handles", name+" (everybody)", e.Pos, pt, "%s is left out", x)
			} else {
				c.ob(x == conn || x == self, "handles", name+" (others)", e.Pos, pt, "left out is %s", x)
			}
		}
	}
	c.need("handles", 6)
}

func (c *Chk) closedSeenAfter(pt *Path, closed *types.Var, conn *Term, seq int) bool {
	for _, e := range pt.Events {
		if e.Kind == "AtomicLoad" && e.Seq > seq {
			if v, o := cellField(e.Args[0]); v == closed && o == conn && nonZeroRead(pt, e.Res) {
				return true
			}
		}
	}
	return false
}

// broadcastRules: what Server.Broadcast hands on.
func (c *Chk) broadcastRules() {
	r := c.r
	f := c.p.method("Server", "Broadcast")
	if f == nil || len(f.Params) != 3 {
		c.ob(false, "anchor", "Server.Broadcast", token.NoPos, nil, "not found")
		return
	}
	self, ex, list := selfOf(f), TT.mk(OpParam, f.Params[1].Name(), f.Params[1].Type()), TT.mk(OpParam, f.Params[2].Name(), f.Params[2].Type())
	se, syncF := fieldCalled(r.Server, "StackExchange"), fieldCalled(r.Server, "SyncBroadcaster")
	if se == nil || syncF == nil {
		c.ob(false, "anchor", "Server.StackExchange, Server.SyncBroadcaster", token.NoPos, nil, "not found")
		return
	}
	for _, pt := range c.explore(f, "Server.Broadcast", Config{LoopMin: 1, Exits: true, Opaque: c.r.baseOpaque}) {
		var hs []*Event
		for _, e := range pt.Events {
			if c.handoff(e) != nil {
				hs = append(hs, e)
			}
			if e.Kind == "Store" {
				base := e.Args[0]
				for base.Op == OpFAddr {
					base = base.Args[0]
				}
				if base.Op == OpIAddr {
					s, _ := place(base.Args[0], base.Args[1])
					c.ob(s != list, "copied", "Server.Broadcast (caller's messages)", e.Pos, pt, "the caller's message is written to")
				}
			}
		}
		if !complete(pt) {
			continue
		}
		if !c.ob(len(hs) == 1, "copied", "Server.Broadcast (once)", f.Pos(), pt, "the messages are handed on %d times", len(hs)) {
			continue
		}
		h := hs[0]
		l := c.handoff(h)
		c.ob(l != list && rootOf(l) != list, "copied", "Server.Broadcast (kept)", h.Pos, pt, "the caller's own list is handed on")
		// to whom
		hasSE := pt.Facts.nilness(of(self, se))
		sync := pt.Facts.eval(of(self, syncF))
		switch h.Kind {
		case "Invoke":
			c.ob(hasSE == False && isFieldOf(h.Args[0], self, se), "copied", "Server.Broadcast (backend)", h.Pos, pt, "published elsewhere than to the server's backend")
		case "Send":
			c.ob(hasSE == True && sync == True && h.Args[0].any(func(t *Term) bool { return t == self }), "copied", "Server.Broadcast (loop)", h.Pos, pt, "handed to the server's loop although there is a backend or the broadcast is asynchronous")
		default:
			c.ob(hasSE == True && sync == False && h.Args[0].any(func(t *Term) bool { return t == self }), "copied", "Server.Broadcast (list)", h.Pos, pt, "handed to the waiting connections although there is a backend or the broadcast is synchronous")
		}
		if lenZero(pt, list) {
			continue
		}
		// whom it excludes
		want := map[*types.Var]*Term{}
		isT := func(n *types.Named) Tri {
			res := Unknown
			for a, v := range pt.Facts.b {
				if a.Op == OpAssertOK && a.Args[0] == ex && a.CTyp != nil && types.Identical(a.CTyp, types.NewPointer(n)) {
					res = tri(v)
				}
			}
			return res
		}
		assertT := func(n *types.Named) *Term {
			return TT.mk(OpAssert, typKey(types.NewPointer(n)), types.NewPointer(n), ex)
		}
		kind := ""
		switch {
		case pt.Facts.isNil(ex):
			kind = "nobody"
		case isT(r.Conn) == True:
			kind = "connection"
			want[r.mFromEx] = of(assertT(r.Conn), r.connSID)
		case isT(r.NSConn) == True:
			kind = "namespace connection"
			want[r.mFromEx] = of(of(assertT(r.NSConn), r.nsConn), r.connSID)
		case isT(r.Conn) == False && isT(r.NSConn) == False && pt.Facts.isNonNil(ex):
			kind = "ID"
			for _, e := range pt.Events {
				if e.Kind == "Invoke" && e.Args[0] == ex && e.Seq < h.Seq {
					want[r.mFrom] = e.Res
				}
			}
			if !c.ob(want[r.mFrom] != nil, "marked", "Server.Broadcast (ID)", h.Pos, pt, "the excluded ID is not asked for") {
				continue
			}
			if h.Kind == "Invoke" && !pt.Facts.isEmpty(want[r.mFrom]) {
				c.ob(false, "marked", "Server.Broadcast (ID, backend)", h.Pos, pt, "an excluded ID is not carried by the encoding that backends publish")
			}
		default:
			c.ob(false, "marked", "Server.Broadcast (kind)", h.Pos, pt, "what kind of sender is excluded is not looked at")
			continue
		}
		want[r.mWait] = TT.Str("")
		c.markedList(pt, h, l, list, want, kind)
	}
}

// markedList: the list handed on is the caller's, element by element, with some fields set.
func (c *Chk) markedList(pt *Path, h *Event, l, list *Term, want map[*types.Var]*Term, kind string) {
	r := c.r
	st := r.Message.Underlying().(*types.Struct)
	copied := l.Op == OpAppend && len(l.Args) == 2 && (l.Args[0].IsNil() || mkLen(l.Args[0]) == TT.Int(0)) && l.Args[1] == list
	if !copied && l.Op == OpAlloc && l.Sym == "makeslice" && len(l.Args) > 0 && l.Args[0] == mkLen(list) {
		for _, e := range pt.Events {
			if e.Kind == "Copy" && e.Args[0] == l && e.Args[1] == list && e.Seq < h.Seq {
				copied = true
			}
		}
	}
	same := func(v *Term, fv *types.Var, ix *Term) bool {
		if v == nil || v.FieldVar != fv && !(v.Op == OpLoad && v.Args[0].FieldVar == fv) {
			return false
		}
		s, i, ok := indexed(v)
		return ok && i == ix && (s == list || s == l)
	}
	fits := func(fv *types.Var, v *Term) bool {
		w := want[fv]
		return w != nil && v != nil && (sameVal(pt, v, w) || pt.Facts.isEmpty(v) && pt.Facts.isEmpty(w))
	}
	if copied {
		for i := 0; i < st.NumFields(); i++ {
			fv := st.Field(i)
			var ixs []*Term
			for _, e := range pt.Events {
				if e.Kind != "Store" || e.Seq > h.Seq {
					continue
				}
				a := e.Args[0]
				var v *Term
				switch {
				case a.Op == OpFAddr && a.FieldVar == fv && a.Args[0].Op == OpIAddr && a.Args[0].Args[0] == l:
					v = e.Args[1]
					a = a.Args[0]
				case a.Op == OpIAddr && a.Args[0] == l:
					v = mf(e.Args[1], fv)
				default:
					continue
				}
				ix := a.Args[1]
				if same(v, fv, ix) {
					continue
				}
				if want[fv] == nil {
					c.ob(pt.Facts.isEmpty(v) && (fv == r.mFrom || fv == r.mFromEx), "marked", "Server.Broadcast ("+kind+", "+fv.Name()+")", e.Pos, pt, "%s is set to %s", fv.Name(), v)
					continue
				}
				if c.ob(fits(fv, v), "marked", "Server.Broadcast ("+kind+", "+fv.Name()+")", e.Pos, pt, "%s is set to %s", fv.Name(), v) {
					ixs = append(ixs, ix)
				}
			}
			if want[fv] == nil {
				continue
			}
			if pt.Facts.isEmpty(want[fv]) && fv != r.mWait {
				continue
			}
			c.ob(allOf(pt, l, list, ixs), "marked", "Server.Broadcast ("+kind+", every "+fv.Name()+")", h.Pos, pt, "%s is not set on every message", fv.Name())
		}
		return
	}
	// built one by one
	var ixs []*Term
	for _, e := range pt.Events {
		if e.Kind != "Append" || e.Seq > h.Seq || !c.isMsgs(e.Res.Typ) {
			continue
		}
		var m *Term
		if e.Args[1].Op == OpArr && len(e.Args[1].Args) == 1 {
			m = e.Args[1].Args[0]
		}
		if m == nil {
			continue
		}
		_, ix, ok := indexed(mf(m, r.mBody))
		if !c.ob(ok, "marked", "Server.Broadcast ("+kind+", element)", e.Pos, pt, "a message of unknown origin is handed on") {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			fv := st.Field(i)
			v := mf(m, fv)
			good := same(v, fv, ix) && want[fv] == nil || want[fv] != nil && fits(fv, v)
			c.ob(good, "marked", "Server.Broadcast ("+kind+", "+fv.Name()+")", e.Pos, pt, "%s is %s", fv.Name(), v)
		}
		ixs = append(ixs, ix)
	}
	c.ob(len(ixs) > 0 && allOf(pt, l, list, ixs), "marked", "Server.Broadcast ("+kind+", every)", h.Pos, pt, "not every message of the caller is handed on: %s", l)
}

// allOf: the indexes are those of the whole list, in order.
func allOf(pt *Path, l, list *Term, ixs []*Term) bool {
	for _, x := range []*Term{l, list} {
		if len(ixs) == 0 {
			if lenZero(pt, x) {
				return true
			}
			continue
		}
		if _, first := isFirst(x, ixs[0]); !first {
			return false
		}
		for i := 1; i < len(ixs); i++ {
			if !follows(x, ixs[i-1], x, ixs[i]) {
				return false
			}
		}
		want := mkBin(token.ADD, ixs[len(ixs)-1], TT.Int(1), intT)
		ln := mkLen(x)
		if pt.Facts.eval(mkBin(token.LSS, want, ln, types.Typ[types.Bool])) == False {
			return true
		}
		for a, v := range pt.Facts.b {
			if !v && a.Op == OpBin && a.Sym == "<" && a.Args[1] == ln && (a.Args[0] == want || unwound(a.Args[0]) == want) {
				return true
			}
		}
	}
	return false
}

// loopOffers: the server's loop and its lists.
func (c *Chk) loopOffers(pubs map[*ssa.Function]bool) {
	r := c.r
	for _, f := range c.srvLoops() {
		self := readerConn(f)
		for _, pt := range c.explore(f, "offers:"+f.Name(), c.offerConfig(f, pubs)) {
			for i, e := range pt.Events {
				if e.Kind != "Recv" || e.Res == nil {
					continue
				}
				got := e.Res
				if got.Op == OpTuple {
					got = got.Args[0]
				}
				if !c.isMsgs(got.Typ) {
					continue
				}
				name := rel(c, f)
				// up to the next turn of the outer loop
				to := 1 << 30
				for _, g := range pt.Events[i+1:] {
					if g.Kind == "Select" || g.Kind == "Recv" {
						to = g.Seq
						break
					}
				}
				var rng *Event
				var keys []*Term
				var seqs []int
				var nexts []*Event
				exhausted := false
				for _, g := range pt.Events[i+1:] {
					if g.Seq >= to {
						break
					}
					if g.Kind == "Range" && mapOwner(g.Args[0], r.connections) == self {
						rng = g
					}
					if g.Kind == "Next" && rng != nil && g.Args[0] == rng.Res {
						if pt.Facts.is(g.Args[1], true) {
							keys = append(keys, g.Args[2])
							seqs = append(seqs, g.Seq)
							nexts = append(nexts, g)
						} else {
							exhausted = true
						}
					}
					if g.Kind == "EarlyExit" && rng != nil && g.Loop != nil && len(keys) > 0 && g.Seq > seqs[0] && !exhausted {
						c.ob(false, "all-connections", name+" (rest)", g.Pos, pt, "the remaining connections can be left out")
					}
				}
				if to == 1<<30 && !complete(pt) && rng == nil {
					continue
				}
				if !c.ob(rng != nil, "all-connections", name+" (walk)", e.Pos, pt, "the received messages are not offered to the connections") {
					continue
				}
				for k, key := range keys {
					end := to
					if k+1 < len(seqs) {
						end = seqs[k+1]
					}
					var offers []*Event
					for _, g := range pt.Events {
						if g.Kind == "Offer" && g.Seq > seqs[k] && g.Seq < end {
							offers = append(offers, g)
						}
					}
					last := k == len(keys)-1 && end == 1<<30 && !turned(pt, nexts[k])
					if len(pubs) > 0 {
						ok := len(offers) == 1 && hasArg2(offers[0], key) && hasArg2(offers[0], got)
						c.ob(ok || last && len(offers) == 0, "all-connections", name, e.Pos, pt, "a registered connection is not offered the received messages exactly once")
					} else {
						c.offered(pt, key, got, seqs[k], end, name, e.Pos)
					}
				}
			}
		}
	}
}

func hasArg2(e *Event, t *Term) bool {
	for _, a := range e.Args {
		if a == t {
			return true
		}
	}
	return false
}

func fieldCalled(n *types.Named, name string) *types.Var {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i)
		}
	}
	return nil
}

// turned: the path was cut when it came back to the start of the loop that the event is part of.
func turned(pt *Path, e *Event) bool {
	if n := len(pt.Events); n > 0 && pt.Outcome == "loop" {
		last := pt.Events[n-1]
		return last.Kind == "LoopBack" && last.Loop != nil && e.Loop != nil && last.Loop.Header == e.Loop.Header
	}
	return false
}

// turnedList: the same for the loop of a function that is given a list of messages.
func (c *Chk) turnedList(pt *Path) bool {
	if n := len(pt.Events); n > 0 && pt.Outcome == "loop" {
		last := pt.Events[n-1]
		if last.Kind == "LoopBack" && last.Instr != nil {
			for _, p := range last.Instr.Parent().Params {
				if c.isMsgs(p.Type()) {
					return true
				}
			}
		}
	}
	return false
}

package main

// C26: messages received before the handshake completed.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C26"] = checkC26 }

// indexed: t is (a field of) an element of a slice.
func indexed(t *Term) (slice, ix *Term, ok bool) {
	for t != nil {
		switch t.Op {
		case OpField, OpConv:
			t = t.Args[0]
			continue
		case OpIndex:
			return t.Args[0], t.Args[1], true
		case OpLoad:
			a := t.Args[0]
			for a.Op == OpFAddr {
				a = a.Args[0]
			}
			if a.Op == OpIAddr {
				return a.Args[0], a.Args[1], true
			}
			return nil, nil, false
		case OpNextVal:
			if t.Sym == "elem" && len(t.Args) == 2 {
				return t.Args[0], t.Args[1], true
			}
			return nil, nil, false
		}
		return nil, nil, false
	}
	return nil, nil, false
}

var intT = types.Typ[types.Int]

// place resolves an element to a base slice and an offset.
func place(slice, ix *Term) (*Term, *Term) {
	for slice.Op == OpSlice && slice.Args[1] != nil && !slice.Args[1].IsNil() {
		ix = mkBin(token.ADD, ix, slice.Args[1], intT)
		slice = slice.Args[0]
	}
	for slice.Op == OpSlice && slice.Args[1].IsNil() && slice.Args[2].IsNil() {
		slice = slice.Args[0]
	}
	return slice, ix
}

// unwound replaces loop values by what they were given at the last turn of the loop.
func unwound(t *Term) *Term {
	if t == nil {
		return nil
	}
	if t.Op == OpPhi && len(t.Args) == 2 {
		return t.Args[1]
	}
	if t.Op == OpBin && t.Sym == "+" && isInteger(t.Typ) {
		return mkBin(token.ADD, unwound(t.Args[0]), unwound(t.Args[1]), intT)
	}
	return t
}

// follows: element b is the one right after element a of the same slice.
func follows(as, ai, bs, bi *Term) bool {
	pb, ob := place(unwound(bs), unwound(bi))
	pa, oa := place(as, ai)
	if pa == pb && ob == mkBin(token.ADD, oa, TT.Int(1), intT) {
		return true
	}
	return false
}

func isFirst(slice, ix *Term) (*Term, bool) {
	s, o := place(slice, ix)
	n, ok := o.IntVal()
	return s, ok && n == 0
}

// queueVar: where the reader keeps what it may not handle yet.
func (c *Chk) queueVar() *types.Var {
	var fv *types.Var
	for _, rd := range c.readers() {
		self := readerConn(rd)
		for _, pt := range c.explore(rd, "reader", c.readerConfig(rd)) {
			for _, s := range c.segments(pt) {
				for _, e := range s.evs {
					if e.Kind == "Store" && e.Args[0].Op == OpFAddr && e.Args[0].Args[0] == self && e.Args[1].Op == OpAppend && s.b != nil && e.Args[1].contains(s.b) {
						fv = e.Args[0].FieldVar
					}
				}
			}
		}
	}
	if fv == nil {
		c.ob(false, "anchor", "queue", token.NoPos, nil, "the reader keeps no list of the messages it may not handle yet")
	}
	return fv
}

func readerConn(rd *ssa.Function) *Term {
	if len(rd.Params) > 0 {
		return selfOf(rd)
	}
	for _, fv := range rd.FreeVars {
		return TT.mk(OpParam, "free:"+fv.Name(), fv.Type())
	}
	return nil
}

func checkC26(c *Chk) {
	r := c.r
	c.rule("kept", "a message read before the handshake is complete that is not itself the signal is appended, with its frame type, to the connection's list in one hold of its lock, and does not end the reader")
	c.rule("not-before", "no message is handled before the handshake is complete")
	c.rule("drained", "when the handshake completes the whole list is taken and emptied in one hold of the lock, and each element is handled once, from the first to the last, before the next message is read")
	c.rule("direct", "after the handshake each non-empty message read is handled exactly once, with its frame type, before the next one is read")
	c.rule("owner", "the list is used by the reader only and always under one lock")
	ack := c.ackVar()
	q := c.queueVar()
	sh, ok := c.shake()
	if ack == nil || q == nil || !ok {
		return
	}
	_ = r
	elT := q.Type().Underlying()
	if sl, ok := elT.(*types.Slice); ok {
		elT = sl.Elem().Underlying()
	}
	for _, rd := range c.readers() {
		self := readerConn(rd)
		name := rel(c, rd)
		for _, pt := range c.explore(rd, "reader", c.readerConfig(rd)) {
			for _, s := range c.segments(pt) {
				if s.b == nil {
					c.ob(false, "anchor", "ReadData", s.read.Pos, pt, "unexpected results")
					continue
				}
				if pt.Facts.isNonNil(s.err) {
					for _, e := range s.evs {
						c.ob(e.Kind != "Handle", "direct", name+" (read error)", e.Pos, pt, "something is handled although reading failed")
					}
					continue
				}
				c.readerSegment(pt, s, self, name, ack, q, sh)
			}
		}
	}
	// nobody else uses the list
	readersFn := c.readers()
	c.fieldUses(q, func(f *ssa.Function, in ssa.Instruction, write bool) {
		if buildsHere(in) {
			return
		}
		in1 := false
		for _, rd := range readersFn {
			in1 = in1 || c.withinOnly(f, rd)
		}
		c.ob(in1, "owner", "list in "+rel(c, f), in.Pos(), nil, "the list is used outside the reader")
	})
	c.need("kept", 2)
	c.need("drained", 3)
	c.need("direct", 1)
}

func (c *Chk) readerSegment(pt *Path, s seg, self *Term, name string, ack, q *types.Var, sh shake) {
	empty := false
	empty = lenZero(pt, s.b)
	initial := Unknown
	for _, e := range s.evs {
		if e.Kind == "AtomicLoad" && flagOwner(pt, e.Args[0], ack) == self {
			if nonZeroRead(pt, e.Res) {
				initial = True
			} else if zeroRead(pt, e.Res) {
				initial = False
			}
			break
		}
		if e.Kind == "AtomicStore" && flagOwner(pt, e.Args[0], ack) == self {
			break
		}
	}
	var handles []*Event
	kept := 0
	for _, e := range s.evs {
		switch e.Kind {
		case "Handle":
			handles = append(handles, e)
			c.ob(c.acked(pt, s, self, ack, e.Seq) == True, "not-before", name, e.Pos, pt, "a message is handled before the handshake is complete")
			c.ob(e.Args[0] == self, "not-before", name+" (this connection)", e.Pos, pt, "it is handled by another connection")
		case "Store":
			if !isAddrOf(e.Args[0], self, q) {
				continue
			}
			c.ob(ownLock(e, self, true), "owner", name+" (locked)", e.Pos, pt, "the list is changed without a lock of the connection")
			if v := e.Args[1]; v.Op == OpAppend && v.contains(s.b) {
				kept++
				ok := false
				for _, l := range pt.Events {
					if l.Kind == "Load" && l.Seq < e.Seq && l.Seq > s.read.Seq && isAddrOf(l.Args[0], self, q) && l.Res == v.Args[0] && heldThrough(pt, self, l.Seq, e.Seq) {
						ok = true
					}
				}
				el := v.Args[1]
				one := el.Op == OpArr && len(el.Args) == 1 && el.Args[0].Op == OpStruct
				c.ob(ok, "kept", name+" (appended)", e.Pos, pt, "the list is not read and extended in one hold of its lock")
				c.ob(one && hasArg(el.Args[0], s.b) && hasArg(el.Args[0], s.typ), "kept", name+" (with type)", e.Pos, pt, "what is kept is not the message with its frame type: %s", el)
			} else if !v.IsNil() && !(v.Op == OpSlice && isZeroLen(v)) && !(v.Op == OpAlloc) && mkLen(v) != TT.Int(0) {
				c.ob(false, "kept", name+" (list)", e.Pos, pt, "the list becomes %s", v)
			}
		}
	}
	final := c.acked(pt, s, self, ack, 1<<60)
	for _, e := range s.evs {
		if e.Kind == "AtomicLoad" && flagOwner(pt, e.Args[0], ack) == self && zeroRead(pt, e.Res) {
			final = False // taken back: the connection was closed meanwhile
		} else if e.Kind == "AtomicLoad" && flagOwner(pt, e.Args[0], ack) == self && nonZeroRead(pt, e.Res) || e.Kind == "AtomicStore" && flagOwner(pt, e.Args[0], ack) == self && isOne(e.Args[1]) {
			final = True
		}
	}
	if empty {
		c.ob(len(handles) == 0 && kept == 0, "kept", name+" (empty)", s.read.Pos, pt, "an empty message is handled")
		return
	}
	ended := s.end == "read"
	for _, e := range s.evs {
		ended = ended || e.Kind == "LoopBack" && e.Loop != nil && e.Loop.Up == nil && e == s.evs[len(s.evs)-1]
	}
	switch initial {
	case True:
		n := 0
		for _, h := range handles {
			if h.Args[1] == s.typ && h.Args[2] == s.b {
				n++
			} else {
				c.ob(false, "direct", name+" (other)", h.Pos, pt, "something other than the message read is handled: %s", h.Args[2])
			}
		}
		if s.end == "cut" && !ended {
			c.ob(n <= 1, "direct", name, s.read.Pos, pt, "a message is handled twice")
		} else {
			c.ob(n == 1, "direct", name, s.read.Pos, pt, "a message read is handled %d times", n)
		}
		c.ob(kept == 0, "direct", name+" (kept)", s.read.Pos, pt, "a message is kept although the handshake is complete")
	case False, Unknown:
		raised := false
		for _, e := range s.evs {
			raised = raised || e.Kind == "AtomicStore" && flagOwner(pt, e.Args[0], ack) == self && isOne(e.Args[1])
		}
		for _, h := range handles {
			c.ob(h.Args[2] != s.b, "direct", name+" (signal)", h.Pos, pt, "the signal itself is handled as a message, or a message out of its turn")
		}
		c.ob(kept <= 1, "kept", name+" (twice)", s.read.Pos, pt, "a message is kept twice")
		c.ob(!(raised && kept > 0), "kept", name+" (signal)", s.read.Pos, pt, "the signal is kept as a message")
		if s.end == "return" && !raised {
			cl := c.side(pt, self) == -1
			sig := firstIs(pt, s.b, sh.no) == True && cl || firstIs(pt, s.b, sh.hello) == True && c.side(pt, self) == 1
			c.ob(sig || kept > 0 && final == True, "kept", name+" (goes on)", s.read.Pos, pt, "a message that is no signal ends the reader")
		}
		if ended && !raised {
			c.ob(kept == 1, "kept", name, s.read.Pos, pt, "a message that arrives before the handshake is dropped")
		}
		if final == True && (ended || s.end == "return" || len(handles) > 0) {
			c.drain(pt, s, self, name, q, handles, ended)
		}
	}
}

// lenZero: the sequence is known to be empty.
func lenZero(pt *Path, t *Term) bool {
	if t.Typ != nil {
		for _, e := range pt.Events {
			if e.Kind == "MapLen" && e.Args[0] == t && zeroLen(pt, e.Args[1]) {
				return true
			}
		}
	}
	return zeroLen(pt, mkLen(t))
}

func zeroLen(pt *Path, l *Term) bool {
	if _, hi := pt.Facts.rng(l); hi == 0 {
		return true
	}
	return pt.Facts.eqv(l, TT.Int(0)) == True || pt.Facts.eval(mkBin(token.LSS, TT.Int(0), l, types.Typ[types.Bool])) == False
}

func hasArg(t, a *Term) bool {
	for _, x := range t.Args {
		if x == a {
			return true
		}
	}
	return false
}

func isZeroLen(t *Term) bool {
	n, ok := t.Args[2].IntVal()
	return ok && n == 0
}

func (c *Chk) drain(pt *Path, s seg, self *Term, name string, q *types.Var, handles []*Event, ended bool) {
	// taken in one step
	var taken *Term
	pos := s.read.Pos
	closing := false
	for _, e := range s.evs {
		if e.Kind == "Load" && isAddrOf(e.Args[0], self, q) {
			for _, st := range s.evs {
				if st.Kind == "Store" && st.Seq > e.Seq && isAddrOf(st.Args[0], self, q) && (st.Args[1].IsNil() || mkLen(st.Args[1]) == TT.Int(0)) && heldThrough(pt, self, e.Seq, st.Seq) {
					taken = e.Res
					pos = e.Pos
				}
			}
		}
		if isWire(e) {
			// the acceptance could not be sent: the reader ends
			closing = true
		}
	}
	if taken == nil && s.end == "return" && closing {
		return // the connection could not be told and ends
	}
	if !c.ob(taken != nil, "drained", name+" (taken)", pos, pt, "the list is not taken and emptied in one hold of its lock when the handshake completes") {
		return
	}
	var ps, pi *Term
	for i, h := range handles {
		bs, bi, ok := indexed(h.Args[2])
		ts, ti, ok2 := indexed(h.Args[1])
		if !c.ob(ok && ok2 && bs == ts && bi == ti, "drained", name+" (element)", h.Pos, pt, "what is handled is not an element of the list with its own type: %s", h.Args[2]) {
			return
		}
		if i == 0 {
			base, first := isFirst(bs, bi)
			c.ob(base == taken && first, "drained", name+" (first)", h.Pos, pt, "it does not begin with the first of the list")
		} else {
			c.ob(follows(ps, pi, bs, bi), "drained", name+" (order)", h.Pos, pt, "the elements are not handled one after the other")
		}
		ps, pi = bs, bi
	}
	for _, e := range s.evs {
		if e.Kind == "EarlyExit" && e.Loop != nil && len(handles) > 0 && e.Seq > handles[0].Seq && e.Ctx.Fn == handles[0].Ctx.Fn && handles[0].Loop != nil && e.Loop.Header == handles[0].Loop.Header {
			c.ob(false, "drained", name+" (all)", e.Pos, pt, "the rest of the list can be dropped")
		}
	}
	if len(handles) == 0 && (ended || s.end == "return") {
		c.ob(lenZero(pt, taken), "drained", name+" (handled)", pos, pt, "the list is emptied without handling what was in it")
	} else if ended || s.end == "return" {
		// the loop ended because the list did
		ok := false
		for a, v := range pt.Facts.b {
			if a.Op == OpBin && (a.Sym == "<" || a.Sym == "==") && a.any(func(t *Term) bool {
				return t.Op == OpLen && (t.Args[0] == taken || t.Args[0].any(func(u *Term) bool { return u == taken }))
			}) {
				_ = v
				ok = true
			}
		}
		c.ob(ok, "drained", name+" (bound)", pos, pt, "the loop over the list is not bounded by its length")
	}
}

package main

// C04: how memberships end.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C04"] = checkC04 }

// visits lists the elements of a membership table that a path walks over: elements of a snapshot of it,
// or the table's own iteration when that is not what fills a snapshot.
func (c *Chk) visits(pt *Path, fv *types.Var) (out []*Event, elem []*Term) {
	copied := map[*Term]bool{}
	for _, e := range pt.Events {
		switch e.Kind {
		case "Append":
			if e.Args[1].Op == OpArr {
				for _, a := range e.Args[1].Args {
					copied[a] = true
				}
			}
		case "Store":
			if e.Args[0].Op == OpIAddr {
				copied[e.Args[1]] = true
			}
		}
	}
	for _, e := range pt.Events {
		switch e.Kind {
		case "Elem":
			if o := c.tableOf(e.Res, fv); o != nil {
				out = append(out, e)
				elem = append(elem, e.Res)
			}
		case "Next":
			if e.Args[0].Op != OpRange || !pt.Facts.is(e.Args[1], true) || fieldBase(e.Args[0].Args[0], fv) == nil {
				continue
			}
			if copied[e.Args[3]] || copied[e.Args[2]] {
				continue
			}
			out = append(out, e)
			elem = append(elem, e.Args[3])
		}
	}
	return
}

func (c *Chk) tableOf(t *Term, fv *types.Var) *Term {
	if t != nil && len(t.Args) > 0 && t.Args[0].Op == OpRange {
		return fieldBase(t.Args[0].Args[0], fv)
	}
	return nil
}

// elemKey: key names the element t of a membership table.
func (c *Chk) elemKey(pt *Path, t, key *Term, nameF *types.Var) bool {
	if key == nil || t == nil {
		return false
	}
	if key == t || key == t.Pair || sameStr(pt, key, of(t, nameF)) {
		return true
	}
	// the snapshot may hold the keys themselves
	if t.Pair != nil && sameStr(pt, key, t.Pair) {
		return true
	}
	return false
}

func checkC04(c *Chk) {
	c.rule("leave", "a room is removed only after its leave callback ran once for it and, unless forced by its namespace going away, after the remote side agreed (asking) or the local callback accepted (server answering)")
	c.rule("left", "a removed room fires the left callback exactly once, after the removal, and never otherwise")
	c.rule("disconnect", "a namespace is removed only after the remote side agreed (asking), the local callback accepted (server answering), on a client answering, or by Close; its disconnect callback runs exactly once")
	c.rule("rooms-first", "before a namespace is removed, every room of it is walked over and removed, with no early exit")
	c.rule("refused", "when the leave or disconnect is refused the membership stays and the refusal's error is returned")
	c.rule("gone", "when it was agreed, the membership is removed")
	c.rule("every-one", "LeaveAll and DisconnectAll ask for every membership that still exists")
	pr := func(in ssa.Instruction) bool {
		return c.mutates(c.r.NSConn, false, true)(in) || c.mutates(c.r.Room, false, true)(in)
	}
	roots := c.rootsFor(pr)
	for _, root := range roots {
		name := rel(c, root)
		for _, pt := range c.explore(root, "root:"+root.Name(), c.rootConfig(root)) {
			c.endPath(root, name, pt)
		}
	}
	c.covered("leave", pr)
	for _, a := range [][2]string{{"Conn", "Close"}, {"Conn", "HandlePayload"}, {"NSConn", "Disconnect"}, {"NSConn", "LeaveAll"}, {"Conn", "DisconnectAll"}, {"Room", "Leave"}} {
		fn := c.p.method(a[0], a[1])
		ok := false
		for _, r := range roots {
			ok = ok || r == fn
		}
		c.ob(ok, "anchor", a[0]+"."+a[1], token.NoPos, nil, "it ends no membership")
	}
	c.need("leave", 4)
	c.need("disconnect", 4)
	c.need("rooms-first", 3)
	c.need("gone", 4)
	c.need("refused", 3)
	c.need("every-one", 2)
	c.answeredAs("OnRoomLeave", "OnNamespaceDisconnect")
}

func (c *Chk) endPath(root *ssa.Function, name string, pt *Path) {
	r := c.r
	fires, asks := c.fires(pt), c.asks(pt)
	in := isReplyPath(pt)
	isClose := root == c.p.method("Conn", "Close")
	var roomDel, nsDel []*Event
	for _, e := range pt.Events {
		if e.Kind == "MapClear" && (isMemberMap(e.Args[0].Typ, r.Room) || isMemberMap(e.Args[0].Typ, r.NSConn)) {
			c.ob(false, "leave", c.fnName(e)+" (clear)", e.Pos, pt, "a whole membership table is dropped")
		}
		if e.Kind != "MapDel" {
			continue
		}
		if mapOwner(e.Args[0], r.roomMap) != nil {
			if c.inHold(pt, r.roomMap, e) != False { // else nothing is removed
				roomDel = append(roomDel, e)
			}
		} else if mapOwner(e.Args[0], r.nsMap) != nil {
			if c.inHold(pt, r.nsMap, e) != False {
				nsDel = append(nsDel, e)
			}
		} else if isMemberMap(e.Args[0].Typ, r.Room) || isMemberMap(e.Args[0].Typ, r.NSConn) {
			c.ob(false, "leave", c.fnName(e)+" (table)", e.Pos, pt, "a membership of unknown owner is removed")
		}
	}
	sideOf := func(conn *Term) int { return c.side(pt, conn) }
	isTrue := func(t *Term) bool { return t != nil && pt.Facts.is(t, true) }

	for _, d := range roomDel {
		ns, key := mapOwner(d.Args[0], r.roomMap), d.Args[1]
		where := c.fnName(d) + " in " + name
		conn := c.connOf(c.roomKind(), ns)
		before, after, early := 0, 0, 0
		var lf fire
		for _, f := range fires {
			if f.ns != ns || !sameStr(pt, mf(f.msg, r.mRoom), key) {
				continue
			}
			if c.isEv(pt, f.name, "OnRoomLeave") {
				if f.ev.Seq < d.Seq {
					before++
					lf = f
				} else {
					before += 100
				}
			}
			if c.isEv(pt, f.name, "OnRoomLeft") {
				if f.ev.Seq > d.Seq {
					after++
				} else {
					early++
				}
			}
		}
		if c.ob(before == 1, "leave", where+" (callback)", d.Pos, pt, "the leave callback does not run exactly once, before the removal") {
			c.ob(sameStr(pt, mf(lf.msg, r.mNS), c.nsNameOf(ns)), "leave", where+" (namespace)", d.Pos, pt, "the leave callback names another namespace")
			forced := isTrue(mf(lf.msg, r.mForced))
			ok, why := false, "it was not agreed"
			switch {
			case forced:
				if !complete(pt) {
					ok = true
					break
				}
				why = "rooms are force-left although their namespace stays"
				for _, n := range nsDel {
					if n.Seq > d.Seq && mapOwner(n.Args[0], r.nsMap) == conn {
						ok = true
					}
				}
				ok = ok || c.goneAfter(pt, r.nsMap, conn, c.nsNameOf(ns), d.Seq)
			case in != nil:
				switch sideOf(conn) {
				case -1:
					ok = true
				default:
					ok = pt.Facts.isNil(lf.res)
					why = "the server's own callback did not accept"
				}
			default:
				why = "the remote side did not agree"
				for _, a := range asks {
					if a.ev.Seq < d.Seq && c.isEv(pt, a.name, "OnRoomLeave") && a.conn == conn && sameStr(pt, mf(a.msg, r.mRoom), key) && sameStr(pt, mf(a.msg, r.mNS), c.nsNameOf(ns)) && pt.Facts.isNil(a.err) {
						ok = true
					}
				}
			}
			c.ob(ok, "leave", where+" (agreed)", d.Pos, pt, "%s", why)
			if in != nil && !forced {
				c.ob(sameStr(pt, key, mf(in, r.mRoom)), "leave", where+" (asked for)", d.Pos, pt, "another room than the one asked for is removed: %s", key)
			}
		}
		if after > 0 || complete(pt) {
			c.ob(c.inHold(pt, r.roomMap, d) == True, "left", where+" (who removes)", d.Pos, pt, "the removal does not tell whether the room was still there, so that two leaves at once both fire the left callback")
		}
		if complete(pt) {
			c.ob(after == 1 && early == 0, "left", where, d.Pos, pt, "the left callback does not run exactly once, after the removal")
		} else {
			c.ob(early == 0, "left", where, d.Pos, pt, "the left callback runs before the removal")
		}
	}
	for _, f := range fires {
		if c.isEv(pt, f.name, "OnRoomLeft") {
			ok := false
			for _, d := range roomDel {
				ok = ok || (d.Seq < f.ev.Seq && mapOwner(d.Args[0], r.roomMap) == f.ns && sameStr(pt, d.Args[1], mf(f.msg, r.mRoom)))
			}
			c.ob(ok, "left", c.fnName(f.ev)+" (only then)", f.ev.Pos, pt, "the left callback runs without a removal")
		}
	}
	visited, elems := c.visits(pt, r.roomMap)
	for _, d := range nsDel {
		conn, key := mapOwner(d.Args[0], r.nsMap), d.Args[1]
		where := c.fnName(d) + " in " + name
		isNS := func(t *Term) bool {
			o, k := r.mapElem(t, r.nsMap)
			return o == conn && (k == nil || sameStr(pt, k, key) || c.elemKey(pt, t, key, r.nsName))
		}
		var df []fire
		for _, f := range fires {
			if c.isEv(pt, f.name, "OnNamespaceDisconnect") && isNS(f.ns) && sameStr(pt, mf(f.msg, r.mNS), key) {
				df = append(df, f)
			}
		}
		if complete(pt) {
			c.ob(len(df) == 1, "disconnect", where+" (callback)", d.Pos, pt, "the disconnect callback does not run exactly once for the removed namespace")
		} else {
			c.ob(len(df) <= 1, "disconnect", where+" (callback)", d.Pos, pt, "the disconnect callback runs more than once")
		}
		for _, f := range df {
			if f.ev.Seq > d.Seq {
				c.ob(c.inHold(pt, r.nsMap, d) == True, "disconnect", where+" (who removes)", d.Pos, pt, "the removal does not tell whether the namespace was still connected, so that two disconnects at once both fire the callback")
			}
		}
		ok, why := false, "it was not agreed"
		switch {
		case isClose:
			ok = len(df) == 1 && df[0].ev.Seq < d.Seq && isTrue(mf(df[0].msg, r.mForced))
			why = "Close removes it without having fired the forced disconnect"
		case in != nil:
			ok = sideOf(conn) == -1 || (len(df) == 1 && df[0].ev.Seq < d.Seq && pt.Facts.isNil(df[0].res))
			ok = ok && sameStr(pt, key, mf(in, r.mNS))
			why = "the server's own callback did not accept, or another namespace is meant"
		default:
			why = "the remote side did not agree"
			for _, a := range asks {
				if a.ev.Seq < d.Seq && c.isEv(pt, a.name, "OnNamespaceDisconnect") && a.conn == conn && sameStr(pt, mf(a.msg, r.mNS), key) && pt.Facts.isNil(a.err) {
					ok = true
				}
			}
		}
		c.ob(ok, "disconnect", where+" (agreed)", d.Pos, pt, "%s", why)
		// rooms first
		rangeAt := 0
		for _, e := range pt.Events {
			if e.Kind == "Range" && e.Seq < d.Seq {
				if o := fieldBase(e.Args[0], r.roomMap); o != nil && isNS(o) {
					rangeAt = e.Seq
				}
			}
		}
		if c.ob(rangeAt > 0, "rooms-first", where+" (walk)", d.Pos, pt, "the namespace is removed without walking over its rooms") {
			for i, v := range visited {
				o := c.tableOf(elems[i], r.roomMap)
				if v.Seq > d.Seq || !isNS(o) {
					continue
				}
				gone := false
				for _, g := range c.gets(pt, r.roomMap, o, nil) {
					gone = gone || g.Seq > v.Seq && g.Seq < d.Seq && absent(pt, g) && c.elemKey(pt, elems[i], g.Args[1], r.roomName)
				}
				for _, rd := range roomDel {
					if rd.Seq > v.Seq && rd.Seq < d.Seq && mapOwner(rd.Args[0], r.roomMap) == o && c.elemKey(pt, elems[i], rd.Args[1], r.roomName) {
						gone = true
					}
				}
				whole := v.Kind != "Elem" || v.Args[0].Op != OpSlice
				c.ob(gone && whole, "rooms-first", where+" (each room)", v.Pos, pt, "a room stays behind when its namespace is removed")
			}
			for _, e := range pt.Events {
				if e.Kind == "EarlyExit" && e.Seq > rangeAt && e.Seq < d.Seq {
					c.ob(false, "rooms-first", where+" (early exit)", e.Pos, pt, "the walk over the rooms can stop early")
				}
			}
		}
	}
	if in != nil && complete(pt) {
		// answering: when the request is taken up and accepted the membership goes
		ev := mf(in, r.mEvent)
		for _, f := range fires {
			if c.isEv(pt, f.name, "OnRoomLeave") && !isTrue(mf(f.msg, r.mForced)) && c.isEv(pt, ev, "OnRoomLeave") {
				conn := c.connOf(c.roomKind(), f.ns)
				if sideOf(conn) == -1 || pt.Facts.isNil(f.res) {
					ok := false
					for _, d := range roomDel {
						ok = ok || (mapOwner(d.Args[0], r.roomMap) == f.ns && sameStr(pt, d.Args[1], mf(in, r.mRoom)))
					}
					ok = ok || c.goneAfter(pt, r.roomMap, f.ns, mf(in, r.mRoom), f.ev.Seq)
					c.ob(ok, "gone", name+" (room, answering)", f.ev.Pos, pt, "the leave was accepted but the room stays")
				} else {
					c.ob(len(roomDel) == 0, "refused", name+" (room, answering)", f.ev.Pos, pt, "the leave was refused but the room is removed")
				}
			}
			if c.isEv(pt, f.name, "OnNamespaceDisconnect") && c.isEv(pt, ev, "OnNamespaceDisconnect") {
				conn, _ := r.mapElem(f.ns, r.nsMap)
				if sideOf(conn) == -1 || pt.Facts.isNil(f.res) {
					c.ob(len(nsDel) == 1 || c.goneAfter(pt, r.nsMap, conn, mf(in, r.mNS), f.ev.Seq), "gone", name+" (namespace, answering)", f.ev.Pos, pt, "the disconnect was accepted but the namespace stays")
				} else {
					c.ob(len(nsDel) == 0, "refused", name+" (namespace, answering)", f.ev.Pos, pt, "the disconnect was refused but the namespace is removed")
				}
			}
		}
	}
	if in == nil && !isClose && complete(pt) {
		var errRes *Term
		if n := len(pt.Results); n > 0 && types.Identical(root.Signature.Results().At(n-1).Type(), errType) {
			errRes = pt.Results[n-1]
		}
		for _, a := range asks {
			room, ns := c.isEv(pt, a.name, "OnRoomLeave"), c.isEv(pt, a.name, "OnNamespaceDisconnect")
			if !room && !ns {
				continue
			}
			label := name + " (room)"
			dels, fv, key := roomDel, r.roomMap, mf(a.msg, r.mRoom)
			if ns {
				label, dels, fv, key = name+" (namespace)", nsDel, r.nsMap, mf(a.msg, r.mNS)
			}
			deleted := false
			for _, d := range dels {
				deleted = deleted || (d.Seq > a.ev.Seq && sameStr(pt, d.Args[1], key) && mapOwner(d.Args[0], fv) != nil)
			}
			gone := deleted || c.goneAfter(pt, fv, nil, key, a.ev.Seq)
			switch pt.Facts.nilness(a.err) {
			case False:
				c.ob(!deleted, "refused", label+" (stays)", a.ev.Pos, pt, "refused, but the membership is removed")
				c.ob(errRes == a.err, "refused", label+" (reported)", a.ev.Pos, pt, "the refusal is not what is returned: %s", errRes)
			case True:
				// a local veto of a leave keeps the room and is returned
				var veto *Term
				for _, f := range fires {
					if room && c.isEv(pt, f.name, "OnRoomLeave") && f.ev.Seq > a.ev.Seq && sameStr(pt, mf(f.msg, r.mRoom), key) && pt.Facts.isNonNil(f.res) && !deleted {
						veto = f.res
					}
				}
				if veto != nil {
					c.ob(errRes == veto, "refused", label+" (local veto)", a.ev.Pos, pt, "the local veto is not what is returned: %s", errRes)
				} else {
					c.ob(gone, "gone", label, a.ev.Pos, pt, "agreed, but the membership stays")
				}
			default:
				c.ob(false, "refused", label+" (looked at)", a.ev.Pos, pt, "the remote answer is ignored")
			}
		}
		// every membership of the walk
		for _, w := range []struct {
			typ, fn, ev string
			fv, nameF   *types.Var
			keyF        *types.Var
		}{{"NSConn", "LeaveAll", "OnRoomLeave", r.roomMap, r.roomName, r.mRoom}, {"Conn", "DisconnectAll", "OnNamespaceDisconnect", r.nsMap, r.nsName, r.mNS}} {
			if root != c.p.method(w.typ, w.fn) {
				continue
			}
			evs, els := c.visits(pt, w.fv)
			refused := errRes != nil && pt.Facts.isNonNil(errRes)
			for i, v := range evs {
				ok := false
				for _, a := range asks {
					ok = ok || (c.isEv(pt, a.name, w.ev) && c.elemKey(pt, els[i], mf(a.msg, w.keyF), w.nameF))
				}
				for _, g := range c.gets(pt, w.fv, nil, nil) {
					ok = ok || (g.Seq > v.Seq && absent(pt, g) && c.elemKey(pt, els[i], g.Args[1], w.nameF))
				}
				whole := v.Kind != "Elem" || v.Args[0].Op != OpSlice
				c.ob(ok && whole, "every-one", name, v.Pos, pt, "a membership is passed over")
			}
			if !refused {
				for _, e := range pt.Events {
					if e.Kind == "EarlyExit" {
						c.ob(false, "every-one", name+" (early exit)", e.Pos, pt, "the walk stops early although nothing was refused")
					}
				}
			}
		}
	}
}

package main

// C31: failures of the transport are recognised and acted on. C32: objects are encoded by their own methods.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C31"] = checkC31; checks["C32"] = checkC32 }

// asserted: what the path knows about the dynamic type of v being the named one.
func asserted(pt *Path, v *Term, typ string) Tri {
	t := Unknown
	for a, val := range pt.Facts.b {
		if a.Op != OpAssertOK || a.Args[0] != v || a.CTyp == nil {
			continue
		}
		switch n := types.TypeString(a.CTyp, nil); {
		case n == typ:
			return tri(val)
		case val && !types.IsInterface(a.CTyp):
			t = False // it is of another type
		}
	}
	if pt.Facts.isNil(v) {
		return False
	}
	return t
}

// isGlobalErr: the variable of another package.
func isGlobalErr(t *Term, name string) bool {
	return t.Op == OpLoad && t.Args[0].Op == OpGlobal && strings.TrimPrefix(t.String(), "&") == name
}

// sameErr: what the path knows about err being the variable.
func sameErr(pt *Path, err *Term, name string) Tri {
	if pt.Facts.isNil(err) {
		return False
	}
	for a, val := range pt.Facts.b {
		if a.Op == OpPure && a.Sym == "errors.Is" && a.Args[0] == err && isGlobalErr(a.Args[1], name) {
			return tri(val)
		}
		if a.Op == OpBin && a.Sym == "==" && (a.Args[0] == err && isGlobalErr(a.Args[1], name) || a.Args[1] == err && isGlobalErr(a.Args[0], name)) {
			return tri(val)
		}
	}
	// the variables hold errors made by errors.New
	if asserted(pt, err, "*net.OpError") == True || asserted(pt, err, "github.com/kataras/neffos.CloseError") == True {
		return False
	}
	for a, val := range pt.Facts.b { // it is another one of them
		if val && a.Op == OpBin && a.Sym == "==" && (a.Args[0] == err && a.Args[1].Op == OpLoad || a.Args[1] == err && a.Args[0].Op == OpLoad) {
			return False
		}
	}
	return Unknown
}

func or3(ts ...Tri) Tri {
	res := False
	for _, t := range ts {
		if t == True {
			return True
		}
		if t == Unknown {
			res = Unknown
		}
	}
	return res
}

func and3(ts ...Tri) Tri {
	res := True
	for _, t := range ts {
		if t == False {
			return False
		}
		if t == Unknown {
			res = Unknown
		}
	}
	return res
}

// closeErr: what the path knows about err meaning that the connection is gone.
func closeErr(pt *Path, err *Term, own string) Tri {
	op := asserted(pt, err, "*net.OpError")
	sys, text, isSys := Unknown, Unknown, false
	for a, val := range pt.Facts.b {
		switch {
		case a.Op == OpAssertOK && a.CTyp != nil && types.TypeString(a.CTyp, nil) == "*os.SyscallError" && innerErr(a.Args[0], err):
			sys = tri(val)
			isSys = isSys || val
			for b, v2 := range pt.Facts.b {
				if v2 && val && b.Op == OpBin && b.Sym == "==" && b.any(func(x *Term) bool { return x.Op == OpAssert && x.Args[0] == a.Args[0] }) {
					sys = False // a nil one
				}
			}
		case a.Op == OpPure && (a.Sym == "strings.HasSuffix" || a.Sym == "strings.Contains") && len(a.Args) == 2 && a.Args[0].any(func(x *Term) bool { return x == err }):
			if s, ok := textOf(a.Args[1]); ok && s == "use of closed network connection" {
				text = tri(val)
			}
		case a.Op == OpPure && a.Sym == "errors.Is" && isGlobalErr(a.Args[1], "net.ErrClosed") && (a.Args[0] == err || innerErr(a.Args[0], err)):
			text = tri(val)
		}
	}
	for t, n := range pt.Facts.nonnil {
		if t.Op == OpAssert && innerErr(t.Args[0], err) && n < 0 && types.TypeString(t.Typ, nil) == "*os.SyscallError" {
			sys = False
		}
		if innerErr(t, err) && n < 0 {
			sys, text = False, False // no cause given
		}
	}
	for a, val := range pt.Facts.b {
		if val && a.Op == OpBin && a.Sym == "==" && a.Args[1].IsNil() && innerErr(a.Args[0], err) {
			sys, text = False, False
		}
	}
	if text == Unknown && isSys {
		text = False // not asked
	}
	return or3(asserted(pt, err, own), sameErr(pt, err, "io.EOF"), sameErr(pt, err, "io.ErrUnexpectedEOF"), and3(op, or3(sys, text)))
}

// innerErr: t is the cause inside the network error.
func innerErr(t, err *Term) bool {
	return t.Op != OpParam && t.Typ != nil && types.TypeString(t.Typ, nil) == "error" && t != err &&
		t.any(func(x *Term) bool {
			return x.Op == OpAssert && x.Args[0] == err && types.TypeString(x.Typ, nil) == "*net.OpError"
		})
}

// timeoutErr: what the path knows about err being a timeout of the network.
func timeoutErr(pt *Path, err *Term) Tri {
	if pt.Facts.isNil(err) || asserted(pt, err, "*net.OpError") == False {
		return False
	}
	for _, e := range pt.Events {
		if (e.Kind == "Call" && e.Name == "(*net.OpError).Timeout" || e.Kind == "Invoke" && e.Name == "net.Error.Timeout") && e.Res != nil && e.Args[0].any(func(x *Term) bool { return x == err }) {
			return pt.Facts.eval(e.Res)
		}
	}
	return Unknown
}

func checkC31(c *Chk) {
	c.rule("close-error", "IsCloseError tells exactly: a CloseError, the end of the stream (expected or not), or a network error whose cause is a failed system call or a connection already closed; never nil")
	c.rule("timeout-error", "IsTimeoutError tells exactly the network errors that report a timeout; never nil")
	c.rule("disconnect-error", "IsDisconnectError tells exactly the errors that one of the other two tells")
	c.rule("failed-write", "after every write to the socket that failed, the connection is closed unless the failure was found to be none of a connection gone")
	c.rule("told", "Conn.Write reports a failed write to the socket as false, and one that worked as true")
	r := c.r
	own := c.p.Root.Pkg.Path() + ".CloseError"
	cfg := c.except("Pred")
	for _, n := range []string{"IsCloseError", "IsTimeoutError", "IsDisconnectError"} {
		f := c.p.fn(n)
		if f == nil {
			c.ob(false, "anchor", n, token.NoPos, nil, "not found")
			continue
		}
		err := paramN(f, 0)
		rule := map[string]string{"IsCloseError": "close-error", "IsTimeoutError": "timeout-error", "IsDisconnectError": "disconnect-error"}[n]
		for _, pt := range c.explore(f, "class", cfg) {
			if !complete(pt) || len(pt.Results) != 1 {
				continue
			}
			res := pt.Facts.eval(pt.Results[0])
			var want Tri
			switch n {
			case "IsCloseError":
				want = closeErr(pt, err, own)
			case "IsTimeoutError":
				want = timeoutErr(pt, err)
			default:
				want = or3(closeErr(pt, err, own), timeoutErr(pt, err))
			}
			c.ob(res != Unknown && res == want, rule, n, f.Pos(), pt, "answers %s for an error of which the path knows: %s", triText(res), triText(want))
		}
	}

	// writes
	socketWrite := func(in ssa.Instruction) bool {
		call, ok := in.(*ssa.Call)
		return ok && call.Call.IsInvoke() && namedOf(call.Call.Value.Type()) == r.Socket && (call.Call.Method.Name() == "WriteText" || call.Call.Method.Name() == "WriteBinary")
	}
	stop := func(f *ssa.Function) bool { k := r.baseOpaque(f); return k == "Write" || k == "Ask" || k == "Close" }
	handle := c.p.method("Conn", "HandlePayload")
	w := c.p.method("Conn", "Write")
	for _, f := range c.p.entryPoints() {
		if fnPkg(f) != c.p.Root || !c.p.reaches(f, func(g *ssa.Function) bool { return stop(g) || g == handle && f != handle }, socketWrite) {
			continue
		}
		for _, pt := range c.explore(f, "side:"+f.Name(), c.plusHandle(f)) {
			for _, e := range pt.Events {
				if !isWire(e) || pt.Facts.isNil(e.Res) {
					continue
				}
				// the connection whose socket it is
				closed := false
				for _, g := range pt.Events {
					closed = closed || g.Seq > e.Seq && g.Kind == "Close"
				}
				asked := false
				for a, val := range pt.Facts.b {
					if !val && a.Op == OpPure && len(a.Args) == 1 && a.Args[0] == e.Res && (strings.HasSuffix(a.Sym, "IsCloseError") || strings.HasSuffix(a.Sym, "IsDisconnectError")) {
						asked = true
					}
				}
				if pt.Outcome != "return" && pt.Outcome != "loop" {
					continue
				}
				c.ob(closed || asked, "failed-write", c.fnName(e), e.Pos, pt, "a write that failed may leave a connection that is gone open")
			}
		}
	}
	if w == nil {
		c.ob(false, "anchor", "Conn.Write", token.NoPos, nil, "not found")
		return
	}
	for _, pt := range c.explore(w, "Write", c.plusHandle(w)) {
		if !complete(pt) || len(pt.Results) != 1 {
			continue
		}
		for _, e := range pt.Events {
			if isWire(e) {
				res := pt.Facts.eval(pt.Results[0])
				ok := res == True && pt.Facts.isNil(e.Res) || res == False && pt.Facts.isNonNil(e.Res) || isEqOf(pt.Results[0], e.Res, TT.Nil())
				c.ob(ok, "told", rel(c, w), e.Pos, pt, "a write reports %s", pt.Results[0])
			}
		}
	}
	c.need("close-error", 1)
	c.need("timeout-error", 1)
	c.need("disconnect-error", 1)
	c.need("failed-write", 1)
	c.need("told", 1)
}

func triText(t Tri) string {
	return map[Tri]string{True: "yes", False: "no", Unknown: "nothing"}[t]
}

func checkC32(c *Chk) {
	c.rule("marshal", "Marshal returns what the object's own Marshal returns when it has one, and otherwise what the configured default returns, in place of an error its text")
	c.rule("unmarshal", "Unmarshal gives exactly the message's body to the object's own Unmarshal when it has one, and otherwise to the configured default, once, and returns its error")
	c.rule("default", "the defaults are read from their variables, which programs may set")
	// direct: the call names a function of a library instead of reading the variable
	direct := func(e *Event) bool {
		call, ok := e.Instr.(*ssa.Call)
		if !ok {
			return false
		}
		_, fn := call.Call.Value.(*ssa.Function)
		return fn && (e.Fn == nil || !c.p.isRepo(e.Fn))
	}
	coder := func(e *Event, iface string) (own, def bool) {
		if e.Kind == "Invoke" && strings.HasSuffix(e.Name, iface) {
			return true, false
		}
		return false, e.Kind == "Dyn" || e.Kind == "Call" && (strings.Contains(e.Name, "json.") || !direct(e))
	}
	own := func(pt *Path, v *Term, iface string) Tri {
		for a, val := range pt.Facts.b {
			if a.Op == OpAssertOK && a.Args[0] == v && a.CTyp != nil && strings.HasSuffix(types.TypeString(a.CTyp, nil), iface) {
				return tri(val)
			}
		}
		return Unknown
	}
	f := c.p.fn("Marshal")
	if f == nil {
		c.ob(false, "anchor", "Marshal", token.NoPos, nil, "not found")
	} else {
		v := paramN(f, 0)
		for _, pt := range c.explore(f, "body", c.base()) {
			if !complete(pt) || len(pt.Results) != 1 {
				continue
			}
			var calls []*Event
			var mine bool
			for _, e := range pt.Events {
				o, d := coder(e, "MessageObjectMarshaler.Marshal")
				if o || d {
					calls, mine = append(calls, e), o
				}
			}
			if !c.ob(len(calls) == 1, "marshal", "Marshal (once)", f.Pos(), pt, "the object is encoded %d times", len(calls)) {
				continue
			}
			e := calls[0]
			has := own(pt, v, "MessageObjectMarshaler")
			c.ob(mine && has == True || !mine && has == False, "marshal", "Marshal (by whom)", e.Pos, pt, "the object's own method is not preferred")
			c.ob(len(e.Args) > 0 && e.Args[len(e.Args)-1].any(func(x *Term) bool { return x == v }), "marshal", "Marshal (what)", e.Pos, pt, "something else is encoded: %v", e.Args)
			if !mine {
				c.ob(!direct(e), "default", "Marshal", e.Pos, pt, "the configured default is not used")
			}
			if e.Res == nil || e.Res.Op != OpTuple || len(e.Res.Args) != 2 {
				c.ob(false, "marshal", "Marshal (result)", e.Pos, pt, "the result is not looked at")
				continue
			}
			body, err := e.Res.Args[0], e.Res.Args[1]
			res := pt.Results[0]
			switch {
			case pt.Facts.isNil(err):
				c.ob(res == body, "marshal", "Marshal (body)", f.Pos(), pt, "returns %s", res)
			case pt.Facts.isNonNil(err):
				ps := flatten(res)
				c.ob(len(ps) == 1 && ps[0].term != nil && isErrText(ps[0].term, err), "marshal", "Marshal (error)", f.Pos(), pt, "an error is returned as %s", res)
			default:
				c.ob(false, "marshal", "Marshal (error)", f.Pos(), pt, "the error is not looked at")
			}
		}
	}
	f = c.p.method("Message", "Unmarshal")
	if f == nil {
		c.ob(false, "anchor", "Message.Unmarshal", token.NoPos, nil, "not found")
	} else {
		m, out := selfOf(f), paramN(f, 1)
		bodyF := structField(c.r.Message, func(t types.Type) bool { return isBytes(t) })
		for _, pt := range c.explore(f, "body", c.base()) {
			if !complete(pt) || len(pt.Results) != 1 {
				continue
			}
			var calls []*Event
			var mine bool
			for _, e := range pt.Events {
				o, d := coder(e, "MessageObjectUnmarshaler.Unmarshal")
				if o || d {
					calls, mine = append(calls, e), o
				}
			}
			if !c.ob(len(calls) == 1, "unmarshal", "Unmarshal (once)", f.Pos(), pt, "the body is decoded %d times", len(calls)) {
				continue
			}
			e := calls[0]
			has := own(pt, out, "MessageObjectUnmarshaler")
			c.ob(mine && has == True || !mine && has == False, "unmarshal", "Unmarshal (by whom)", e.Pos, pt, "the object's own method is not preferred")
			if !mine {
				c.ob(!direct(e), "default", "Unmarshal", e.Pos, pt, "the configured default is not used")
			}
			gotBody, gotOut := false, false
			for _, a := range e.Args {
				for _, b := range bodyF {
					gotBody = gotBody || isFieldOf(a, m, b)
				}
				gotOut = gotOut || a == out || a.Op == OpAssert && a.Args[0] == out
			}
			c.ob(gotBody && gotOut, "unmarshal", "Unmarshal (what)", e.Pos, pt, "not the message's body is decoded into the object: %v", e.Args)
			c.ob(pt.Results[0] == e.Res || pt.Results[0].IsNil() && pt.Facts.isNil(e.Res), "unmarshal", "Unmarshal (error)", f.Pos(), pt, "returns %s", pt.Results[0])
		}
	}
	c.need("marshal", 3)
	c.need("unmarshal", 3)
	c.need("default", 2)
}

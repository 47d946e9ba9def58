package main

// C30: waiting to be connected ends.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C30"] = checkC30 }

// lin: t is k*v plus something that does not depend on v (k only has the right sign after a division).
func lin(t, v *Term) (k int64, ok bool) {
	t = number(t)
	if t == v {
		return 1, true
	}
	if !t.has(v) {
		return 0, true
	}
	if t.Op != OpBin || len(t.Args) != 2 {
		if t.Op == OpPure && len(t.Args) == 1 && strings.HasPrefix(t.Sym, "(time.Duration).") {
			return lin(t.Args[0], v) // Seconds and the like
		}
		return 0, false
	}
	a, okA := lin(t.Args[0], v)
	b, okB := lin(t.Args[1], v)
	if !okA || !okB {
		return 0, false
	}
	switch t.Sym {
	case "+":
		return a + b, true
	case "-":
		return a - b, true
	case "*":
		if n, isC := t.Args[1].IntVal(); isC {
			return a * n, true
		}
		if n, isC := t.Args[0].IntVal(); isC {
			return b * n, true
		}
	case "/":
		if n, isC := t.Args[1].IntVal(); isC && n > 0 {
			return a, true
		}
	}
	return 0, false
}

// number: the number without its conversions to other number types.
func number(t *Term) *Term {
	num := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsNumeric != 0
	}
	for t != nil && t.Op == OpConv && len(t.Args) == 1 && t.Typ != nil && t.Args[0].Typ != nil && num(t.Typ) && num(t.Args[0].Typ) {
		t = t.Args[0]
	}
	return t
}

// has tells whether v is somewhere in t.
func (t *Term) has(v *Term) bool {
	if t == v {
		return true
	}
	for _, a := range t.Args {
		if a != nil && t.Op != OpPhi && a.has(v) {
			return true
		}
	}
	return false
}

// inTurn: the event belongs to the turn of the loop that the LoopBack ends.
func inTurn(e, back *Event) bool {
	l, want := e.Loop, back.Loop
	if want == nil {
		return true
	}
	for l != nil {
		if l.Header == want.Header && l.N == want.N {
			return true
		}
		if l.Up != nil {
			l = l.Up
		} else {
			l = l.Out
		}
	}
	return false
}

// pauses: the event lets time pass.
func pauses(pt *Path, e *Event) bool {
	switch e.Kind {
	case "Call":
		if e.Name == "time.Sleep" && len(e.Args) == 1 {
			lo, _ := pt.Facts.rng(e.Args[0])
			return lo > 0
		}
	case "Select":
		return e.Flag
	case "Recv":
		return e.Name != "select"
	}
	return false
}

// madeBefore: t was made by a step before the turn (or is no result of a step at all).
func madeBefore(pt *Path, t *Term, back *Event) bool {
	for _, e := range pt.Events {
		if e.Res != nil && inTurn(e, back) && (t.has(e.Res) || e.Res.Op == OpTuple && containsAny(t, e.Res.Args)) {
			return false
		}
	}
	return true
}

func containsAny(t *Term, vs []*Term) bool {
	for _, v := range vs {
		if t.has(v) {
			return true
		}
	}
	return false
}

// timed: the channel is ready some fixed time after it was made, and it was made before this turn.
func timed(pt *Path, ch *Term, back *Event) bool {
	for _, e := range pt.Events {
		if e.Kind != "Call" || e.Res == nil || inTurn(e, back) {
			continue
		}
		switch e.Name {
		case "time.After":
			if ch == e.Res {
				return true
			}
		case "time.NewTimer":
			if ch.has(e.Res) {
				return true
			}
		case "context.WithTimeout", "context.WithDeadline":
			if ch.Op == OpPure && ch.Sym == "context.Context.Done" && e.Res.Op == OpTuple && ch.Args[0] == e.Res.Args[0] {
				return true
			}
		}
	}
	return false
}

// nowOf: how t moves as time passes, when it is read from the clock in this turn.
func nowOf(pt *Path, t *Term, back *Event) (dir int64, ok bool) {
	for _, e := range pt.Events {
		if e.Kind == "Call" && e.Res != nil && inTurn(e, back) {
			switch e.Name {
			case "time.Now", "time.Since", "time.Until":
				if len(e.Args) > 0 && !madeBefore(pt, e.Args[0], back) {
					continue
				}
				d := int64(1)
				if e.Name == "time.Until" {
					d = -1
				}
				if k, ok := moves(t, e.Res); ok && k != 0 {
					return k * d, true
				}
			}
		}
	}
	return 0, false
}

// moves: like lin, with the methods of times.
func moves(t, v *Term) (int64, bool) {
	if t.Op == OpPure && strings.HasPrefix(t.Sym, "(time.Time).") && t != v {
		a, ok := moves(t.Args[0], v)
		if !ok {
			return 0, false
		}
		switch t.Sym {
		case "(time.Time).Sub":
			b, ok := moves(t.Args[1], v)
			return a - b, ok
		case "(time.Time).Add", "(time.Time).Unix", "(time.Time).UnixNano", "(time.Time).UnixMilli", "(time.Time).UTC", "(time.Time).Local", "(time.Time).Round":
			if len(t.Args) > 1 && t.Args[1].has(v) {
				return 0, false
			}
			return a, true
		}
		return 0, a == 0 && !t.has(v)
	}
	if t.Op == OpBin && (t.Sym == "+" || t.Sym == "-") {
		a, okA := moves(t.Args[0], v)
		b, okB := moves(t.Args[1], v)
		if t.Sym == "-" {
			b = -b
		}
		return a + b, okA && okB
	}
	return lin(t, v)
}

// bounded: another turn after this one is possible only a fixed number of times or for a fixed time.
func bounded(pt *Path, back *Event) bool {
	// a variable that every turn moves the same way, and a limit that this turn found not to be reached
	for _, v := range back.Turn {
		ov, nv := v[0], v[1]
		if ov == nil || nv == nil || ov.Typ == nil || !isInteger(ov.Typ) {
			continue
		}
		d, ok := stepOf(nv, ov)
		if !ok || d == 0 {
			continue
		}
		for a, val := range pt.Facts.b {
			if a.Op != OpBin || a.Sym != "<" || !a.has(ov) {
				continue
			}
			l, okL := lin(a.Args[0], ov)
			r, okR := lin(a.Args[1], ov)
			if !okL || !okR || !madeBefore(pt, a, back) {
				continue
			}
			k := (l - r) * d
			if val && k > 0 || !val && k < 0 {
				return true
			}
		}
		// a limit that is met exactly
		init := ov
		for init.Op == OpPhi && len(init.Args) > 0 {
			init = init.Args[0]
		}
		if n0, isC := init.IntVal(); isC {
			for t, ks := range pt.Facts.ne {
				if t != ov && t != nv {
					continue
				}
				for _, k := range ks {
					n, isC := k.IntVal()
					if isC && (n-n0)%d == 0 && (n-n0)/d >= 0 && !(t == nv && n == n0) {
						return true
					}
				}
			}
		}
	}
	// the clock
	for a, val := range pt.Facts.b {
		switch {
		case a.Op == OpPure && len(a.Args) == 2 && (a.Sym == "(time.Time).After" || a.Sym == "(time.Time).Before"):
			x, okX := nowOf(pt, a.Args[0], back)
			y, okY := nowOf(pt, a.Args[1], back)
			if okX == okY {
				continue
			}
			k, other := x, a.Args[1]
			if okY {
				k, other = -y, a.Args[0]
			}
			if a.Sym == "(time.Time).Before" {
				k = -k
			}
			// first minus second is going to be positive (k > 0) or negative
			if madeBefore(pt, other, back) && (k > 0 && !val || k < 0 && val && a.Sym == "(time.Time).Before" || k < 0 && val) {
				return true
			}
		case a.Op == OpBin && a.Sym == "<":
			x, okX := nowOf(pt, a.Args[0], back)
			y, okY := nowOf(pt, a.Args[1], back)
			if okX == okY {
				continue
			}
			k, other := x, a.Args[1]
			if okY {
				k, other = -y, a.Args[0]
			}
			if madeBefore(pt, other, back) && (k > 0 && val || k < 0 && !val) {
				return true
			}
		}
	}
	// a timer, or a context with a deadline
	for _, e := range pt.Events {
		if !inTurn(e, back) {
			continue
		}
		if e.Kind == "Select" {
			for _, ch := range e.Args {
				if timed(pt, ch, back) && !taken(pt, e, ch) {
					return true
				}
			}
		}
		if e.Kind == "Invoke" && e.Name == "context.Context.Err" && pt.Facts.isNil(e.Res) {
			for _, g := range pt.Events {
				if g.Kind == "Call" && (g.Name == "context.WithTimeout" || g.Name == "context.WithDeadline") && g.Res != nil && g.Res.Op == OpTuple && !inTurn(g, back) && g.Res.Args[0] == e.Args[0] {
					return true
				}
			}
		}
	}
	return false
}

// taken: the select went on with this channel.
func taken(pt *Path, sel *Event, ch *Term) bool {
	for _, e := range pt.Events {
		if e.Kind == "Recv" && e.Name == "select" && e.Instr == sel.Instr && e.Seq == sel.Seq+1 {
			return e.Args[0] == ch
		}
	}
	return false
}

// stepOf: nv is ov plus a constant.
func stepOf(nv, ov *Term) (int64, bool) {
	k, ok := lin(nv, ov)
	if !ok || k != 1 {
		return 0, false
	}
	var rest func(t *Term) (int64, bool)
	rest = func(t *Term) (int64, bool) {
		t = number(t)
		if t == ov {
			return 0, true
		}
		if n, isC := t.IntVal(); isC {
			return n, true
		}
		if t.Op == OpBin && (t.Sym == "+" || t.Sym == "-") {
			a, okA := rest(t.Args[0])
			b, okB := rest(t.Args[1])
			if t.Sym == "-" {
				b = -b
			}
			return a + b, okA && okB
		}
		return 0, false
	}
	return rest(nv)
}

func checkC30(c *Chk) {
	c.rule("ends", "every loop in which a server-side Connect waits for the handshake stops after a fixed number of turns or a fixed time, whatever the other side does, and pauses in every turn")
	c.rule("goes-on", "a server-side Connect fires, asks or registers anything only once it saw the connection acknowledged")
	c.rule("gives-up", "a Connect that gives up waiting returns no namespace and an error: ErrWrite when it saw the connection closed")
	c.rule("released", "a server-side Connect releases the connect callback's verdict before it first waits")
	c.rule("wait-turn", "WaitConnect looks at its context in every turn and pauses, and never uses a nil context")
	c.rule("wait-result", "WaitConnect returns a namespace found under the name asked for and only once it saw the connection acknowledged, or no namespace and the error of its ended context")
	r := c.r
	ack, closedF := c.ackVar(), c.closedVar()
	if ack == nil {
		return
	}
	get := func(n string) *ssa.Function {
		f := c.p.method("Conn", n)
		if f == nil {
			c.ob(false, "anchor", "Conn."+n, token.NoPos, nil, "not found")
		}
		return f
	}
	connect, wait := get("Connect"), get("WaitConnect")
	if connect == nil || wait == nil {
		return
	}
	seesAck := func(pt *Path, self *Term, upto int) bool {
		last := false
		for _, e := range pt.Events {
			if e.Seq < upto && e.Kind == "AtomicLoad" && flagOwner(pt, e.Args[0], ack) == self {
				last = nonZeroRead(pt, e.Res) || last && !zeroRead(pt, e.Res)
			}
		}
		return last
	}
	asks := func(pt *Path, self *Term, in func(*Event) bool) bool {
		for _, e := range pt.Events {
			if in(e) && e.Kind == "AtomicLoad" && flagOwner(pt, e.Args[0], ack) == self {
				return true
			}
		}
		return false
	}
	goesOn := func(e *Event) bool {
		switch e.Kind {
		case "Fire", "Ask", "Write", "Offer", "MapSet", "GateStart":
			return true
		case "Invoke":
			return strings.HasPrefix(e.Name, "neffos.")
		}
		return false
	}
	cfg := c.base()
	cfg.LoopMin = 1
	self := selfOf(connect)
	name := rel(c, connect)
	served := 0
	for _, pt := range c.explore(connect, "connect", cfg) {
		client := pt.Facts.isNil(of(self, r.connServer))
		if client {
			continue
		}
		served++
		var first *Event // the first thing done about the namespace
		for _, e := range pt.Events {
			if first == nil && goesOn(e) {
				first = e
			}
		}
		if first != nil {
			c.ob(seesAck(pt, self, first.Seq), "goes-on", name, first.Pos, pt, "a namespace is connected over a connection not seen to be acknowledged")
		}
		released := false
		for _, e := range pt.Events {
			if e.Kind == "Verdict" && len(e.Args) == 2 && e.Args[1].IsNil() {
				released = true
			}
			if pauses(pt, e) && (first == nil || e.Seq < first.Seq) {
				c.ob(released, "released", name, e.Pos, pt, "the wait starts before the verdict is released, which a Connect inside the connect callback waits for in vain")
				break
			}
		}
		if back := pt.Events[max(0, len(pt.Events)-1)]; pt.Outcome == "loop" && back.Kind == "LoopBack" && first == nil {
			in := func(e *Event) bool { return inTurn(e, back) }
			if asks(pt, self, in) {
				c.ob(bounded(pt, back), "ends", name, back.Pos, pt, "the wait goes on with nothing that limits it")
				ok := false
				for _, e := range pt.Events {
					ok = ok || in(e) && pauses(pt, e)
				}
				c.ob(ok, "ends", name+" (pause)", back.Pos, pt, "a turn of the wait does not pause")
			}
		}
		if complete(pt) && first == nil && len(pt.Results) == 2 {
			c.ob(pt.Results[0].IsNil() && (pt.Facts.isNonNil(pt.Results[1]) || isErrVar(pt.Results[1])), "gives-up", name, connect.Pos(), pt, "a wait given up returns %v", pt.Results)
			closed := false
			for _, e := range pt.Events {
				closed = closed || e.Kind == "AtomicLoad" && flagOwner(pt, e.Args[0], closedF) == self && nonZeroRead(pt, e.Res)
			}
			if closed {
				c.ob(strings.HasSuffix(pt.Results[1].String(), "neffos.ErrWrite"), "gives-up", name+" (closed)", connect.Pos(), pt, "a closed connection is reported as %s", pt.Results[1])
			}
		}
	}
	c.ob(served > 0, "anchor", "Conn.Connect (server side)", connect.Pos(), nil, "no path of a server-side connection was found")

	// WaitConnect
	self = selfOf(wait)
	name = rel(c, wait)
	ctx, nsName := paramN(wait, 1), paramN(wait, 2)
	table := r.nsMap
	ofCtx := func(t *Term) bool {
		return t == ctx || t.has(ctx) || strings.HasPrefix(t.String(), "context.TODO") || strings.HasPrefix(t.String(), "context.Background")
	}
	uses, told := false, false
	for _, pt := range c.explore(wait, "wait", cfg) {
		told = told || pt.Facts.isNil(ctx)
		for _, e := range pt.Events {
			used := e.Kind == "Invoke" && strings.HasPrefix(e.Name, "context.Context.") && e.Args[0] == ctx
			if e.Kind == "Select" || e.Kind == "Recv" {
				for _, a := range e.Args {
					used = used || a.Op == OpPure && strings.HasPrefix(a.Sym, "context.Context.") && a.Args[0] == ctx
				}
			}
			uses = uses || used
			if used {
				c.ob(!pt.Facts.isNil(ctx), "wait-turn", name+" (nil context)", e.Pos, pt, "a nil context is used")
			}
		}
		if pt.Outcome == "loop" && pt.Events[len(pt.Events)-1].Kind == "LoopBack" {
			back := pt.Events[len(pt.Events)-1]
			looked, paused := false, false
			for _, e := range pt.Events {
				if !inTurn(e, back) {
					continue
				}
				paused = paused || pauses(pt, e)
				if e.Kind == "Select" {
					for _, ch := range e.Args {
						looked = looked || ch.Op == OpPure && ch.Sym == "context.Context.Done" && ofCtx(ch.Args[0]) && !taken(pt, e, ch)
					}
				}
				looked = looked || e.Kind == "Invoke" && e.Name == "context.Context.Err" && ofCtx(e.Args[0]) && pt.Facts.isNil(e.Res)
			}
			c.ob(looked, "wait-turn", name, back.Pos, pt, "a turn of the wait does not look at the context, or goes on although it ended")
			c.ob(paused, "wait-turn", name+" (pause)", back.Pos, pt, "a turn of the wait does not pause")
		}
		if !complete(pt) || len(pt.Results) != 2 {
			continue
		}
		ns, err := pt.Results[0], pt.Results[1]
		if pt.Facts.isNil(err) {
			found := ns.Op == OpPhi // of an earlier turn
			for _, e := range pt.Events {
				if e.Kind == "MapGet" && e.Res != nil && e.Res.Op == OpTuple && e.Res.Args[0] == ns {
					found = found || mapOwner(e.Args[0], table) == self && e.Args[1] == nsName
				}
			}
			c.ob(found && pt.Facts.isNonNil(ns), "wait-result", name+" (namespace)", wait.Pos(), pt, "what is returned is not the namespace asked for: %s", ns)
			c.ob(seesAck(pt, self, 1<<60), "wait-result", name+" (acknowledged)", wait.Pos(), pt, "a namespace is returned over a connection not seen to be acknowledged")
		} else {
			ended := false
			for _, e := range pt.Events {
				ended = ended || e.Kind == "Invoke" && (e.Name == "context.Context.Err" || e.Name == "context.Cause") && ofCtx(e.Args[0]) && e.Res == err
				ended = ended || e.Kind == "Call" && e.Name == "context.Cause" && ofCtx(e.Args[0]) && e.Res == err
			}
			ok := ended
			if !ended {
				ok = pt.Facts.isNonNil(err) || isErrVar(err)
			} else {
				// it ended: its channel was received from, or its error is known
				ok = pt.Facts.isNonNil(err)
				for _, e := range pt.Events {
					ok = ok || e.Kind == "Invoke" && e.Name == "context.Context.Err" && ofCtx(e.Args[0]) && pt.Facts.isNonNil(e.Res)
					ok = ok || e.Kind == "Recv" && e.Args[0].Op == OpPure && e.Args[0].Sym == "context.Context.Done" && ofCtx(e.Args[0].Args[0])
				}
			}
			c.ob(ok && ns.IsNil(), "wait-result", name+" (ended)", wait.Pos(), pt, "the wait ends with %s, %s", ns, err)
		}
	}
	c.ob(!uses || told, "wait-turn", name+" (no context)", wait.Pos(), nil, "a nil context is not told apart")
	c.need("goes-on", 1)
	c.need("gives-up", 1)
	c.need("wait-turn", 2)
	c.need("wait-result", 2)
}

// isErrVar: one of the error variables of a package.
func isErrVar(t *Term) bool {
	return t.Op == OpLoad && t.Args[0].Op == OpGlobal && t.Typ != nil && types.TypeString(t.Typ, nil) == "error"
}

package main

// C21: combined handlers and timeouts.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C21"] = checkC21 }

func checkC21(c *Chk) {
	c.rule("every", "every namespace and event of every combined handler is in the result, each namespace in a table of its own")
	c.rule("wins", "of two handlers that define the same event of a namespace the later one's is in the result, and nothing else of the earlier one's is lost")
	c.rule("inputs", "only tables made by the combination are written, put in the result or returned")
	c.rule("plain", "an events table is the empty namespace of its handler, namespaces are their own, and a WithTimeout has those of both its fields")
	c.rule("timeouts", "the server and the client's connection keep the timeouts of a WithTimeout (by value or by pointer) or a struct handler, each in its own role, and the namespaces of their handler")
	c.rule("reach", "every connection gets the timeouts before anyone else sees it, and reads with the read one and writes with the write one")
	c.rule("only", "nothing else changes the timeouts")
	c.joinRules()
	c.plainRules()
	c.timeoutRules()
	c.need("every", 2)
	c.need("wins", 1)
	c.need("inputs", 2)
	c.need("plain", 3)
	c.need("timeouts", 6)
	c.need("reach", 4)
	c.need("only", 4)
}

// bare strips conversions and interfaces.
func bare(t *Term) *Term {
	for t.Op == OpIface || t.Op == OpConv {
		t = t.Args[0]
	}
	return t
}

// iter is a loop over a map.
type iter struct {
	rng   *Event
	src   *Term
	nexts []*Event
}

// turnOf: the end of the n-th pass of the loop (an event number), and whether it was left early or not finished on this path.
func (it *iter) passEnd(pt *Path, n int) (end int, left, open bool) {
	if n+1 < len(it.nexts) {
		return it.nexts[n+1].Seq, false, false
	}
	last := pt.Events[len(pt.Events)-1].Seq + 1
	if pt.Outcome == "loop" {
		if turned(pt, it.nexts[n]) {
			return last, false, false
		}
		lb := pt.Events[len(pt.Events)-1]
		if l := it.nexts[n].Loop; l != nil && lb.Loop.within(l.Header) {
			return last, false, true
		}
	}
	return last, true, false
}

// endsInside: the path ends within the loop.
func endsInside(pt *Path, it *iter) bool {
	lb := pt.Events[len(pt.Events)-1]
	return len(it.nexts) > 0 && it.nexts[0].Loop != nil && lb.Loop.within(it.nexts[0].Loop.Header)
}

// finished: all of the map was seen.
func (it *iter) finished(pt *Path) bool {
	n := len(it.nexts)
	return n > 0 && pt.Facts.is(it.nexts[n-1].Args[1], false)
}

func iters(pt *Path) []*iter {
	var out []*iter
	for _, e := range pt.Events {
		if e.Kind == "Range" && e.Res != nil {
			out = append(out, &iter{rng: e, src: bare(e.Args[0])})
		}
		if e.Kind == "Next" {
			for _, it := range out {
				if it.rng.Res == e.Args[0] {
					it.nexts = append(it.nexts, e)
				}
			}
		}
	}
	return out
}

func (c *Chk) joinRules() {
	f := c.p.fn("JoinConnHandlers")
	if !c.ob(f != nil && len(f.Params) == 1, "anchor", "JoinConnHandlers", token.NoPos, nil, "not found") {
		return
	}
	list := TT.mk(OpParam, f.Params[0].Name(), f.Params[0].Type())
	cfg := c.base() // two passes of every loop: the second one shows what the first one left
	nsT := c.p.Root.Pkg.Scope().Lookup("Namespaces").Type()
	for _, pt := range c.explore(f, "JoinConnHandlers", cfg) {
		if pt.Outcome == "panic" {
			continue
		}
		c.joinPath(pt, f, list, nsT)
	}
}

// owned: a table that this path made, or one out of such a table.
func owned(t *Term) bool {
	t = bare(t)
	switch t.Op {
	case OpAlloc:
		return t.Sym == "makemap"
	case OpMapVal, OpNextVal:
		return len(t.Args) > 0 && owned(rangedMap(t.Args[0]))
	}
	return false
}

func rangedMap(t *Term) *Term {
	if t.Op == OpRange {
		return bare(t.Args[0])
	}
	return bare(t)
}

func (c *Chk) joinPath(pt *Path, f *ssa.Function, list *Term, nsT types.Type) {
	fa := pt.Facts
	its := iters(pt)
	isNS := func(t *Term) bool { return t.Typ != nil && types.Identical(t.Typ, nsT) }
	// the inputs' tables are only read
	res := map[*Term]bool{}
	for _, e := range pt.Events {
		switch e.Kind {
		case "MapSet", "MapDel":
			m := bare(e.Args[0])
			c.ob(owned(m), "inputs", c.fnName(e)+" (written)", e.Pos, pt, "%s is changed, which is not a table of the combination", m)
			if e.Kind == "MapDel" {
				c.ob(false, "every", c.fnName(e)+" (deleted)", e.Pos, pt, "an entry is removed")
			}
			if isNS(m) {
				res[m] = true
				if e.Kind == "MapSet" {
					c.ob(owned(e.Args[2]), "inputs", c.fnName(e)+" (shared)", e.Pos, pt, "the table %s of an input becomes part of the result", e.Args[2])
				}
			}
		case "MapGet":
			if m := bare(e.Args[0]); isNS(m) && owned(m) {
				res[m] = true
			}
		}
	}
	if complete(pt) {
		r := bare(pt.Results[0])
		if !c.ob(owned(r) && isNS(r), "inputs", "JoinConnHandlers (result)", f.Pos(), pt, "the result %s is not a table of its own", r) {
			return
		}
		res = map[*Term]bool{r: true}
	}
	// every handler
	ixs, ended, ok := visited(pt, list)
	if !c.ob(ok, "every", "JoinConnHandlers (loop)", f.Pos(), pt, "the loop over the handlers cannot be followed") {
		return
	}
	for i, ix := range ixs {
		var got *Event
		for _, e := range pt.Events {
			if e.Kind != "Invoke" || e.Name != "neffos.ConnHandler.GetNamespaces" {
				continue
			}
			if s, x, ok := indexed(e.Args[0]); ok && s == list && x == ix {
				got = e
			}
		}
		lastOpen := i == len(ixs)-1 && pt.Outcome == "loop"
		if got == nil {
			c.ob(lastOpen && !turnedSlice(pt, list), "every", "JoinConnHandlers (handler)", f.Pos(), pt, "the namespaces of handler %s are not asked for", ix)
			continue
		}
		var over *iter
		for _, it := range its {
			if it.src == bare(got.Res) {
				over = it
			}
		}
		if over == nil {
			c.ob(lenZero(pt, got.Res) || fa.isNil(got.Res) || lastOpen && !turnedSlice(pt, list), "every", "JoinConnHandlers (namespaces)", got.Pos, pt, "the namespaces of a handler are not gone through")
			continue
		}
		c.ob(over.finished(pt) || pt.Outcome == "loop" && endsInside(pt, over), "every", "JoinConnHandlers (all namespaces)", over.rng.Pos, pt, "not all of the namespaces are gone through")
		for n, nx := range over.nexts {
			if !fa.is(nx.Args[1], true) {
				continue
			}
			end, left, open := over.passEnd(pt, n)
			if open {
				continue
			}
			if !c.ob(!left, "every", "JoinConnHandlers (left)", nx.Pos, pt, "the loop over the namespaces is left early") {
				continue
			}
			c.joinPass(pt, its, nx, end, res)
		}
	}
	if complete(pt) {
		c.ob(ended, "every", "JoinConnHandlers (all handlers)", f.Pos(), pt, "not all of the handlers are gone through")
	}
}

// turnedSlice: the path ends because a loop over the list goes on like before.
func turnedSlice(pt *Path, list *Term) bool {
	n := len(pt.Events)
	if n == 0 || pt.Outcome != "loop" {
		return false
	}
	last := pt.Events[n-1]
	if last.Kind != "LoopBack" || last.Instr == nil {
		return false
	}
	// the header of a slice loop holds no iterator
	for _, in := range last.Instr.Block().Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return false
		}
	}
	return true
}

// joinPass: one namespace of one handler.
func (c *Chk) joinPass(pt *Path, its []*iter, nx *Event, end int, res map[*Term]bool) {
	fa := pt.Facts
	k, evs := nx.Args[2], bare(nx.Args[3])
	if fa.isNil(evs) {
		return // no events
	}
	in := func(e *Event) bool { return e.Seq > nx.Seq && e.Seq < end }
	var put *Event
	prev := map[*Term]bool{}
	var had, hadNot bool
	for _, e := range pt.Events {
		if !in(e) {
			continue
		}
		switch {
		case e.Kind == "MapSet" && res[bare(e.Args[0])] && sameStr(pt, e.Args[1], k):
			put = e
		case e.Kind == "MapGet" && res[bare(e.Args[0])] && sameStr(pt, e.Args[1], k):
			v := mapGot(e)
			if v == nil {
				continue
			}
			if put != nil {
				prev[v] = true // what was put just before
				continue
			}
			switch {
			case present(pt, e) || fa.isNonNil(v):
				had = true
				prev[v] = true
			case absent(pt, e) || fa.isNil(v):
				hadNot = true
			default:
				had = true
				prev[v] = true
			}
		}
	}
	var tab *Term
	switch {
	case put != nil:
		tab = bare(put.Args[2])
		if !c.ob(had || hadNot, "wins", "JoinConnHandlers (table)", put.Pos, pt, "a namespace's table is replaced without looking for the one that an earlier handler gave") {
			return
		}
		if !prev[tab] {
			c.ob(tab.Op == OpAlloc && tab.N > nx.Args[1].N, "every", "JoinConnHandlers (own table)", put.Pos, pt, "several namespaces share a table")
		}
	case had:
		for v := range prev {
			tab = v
		}
	default:
		c.ob(false, "every", "JoinConnHandlers (namespace)", nx.Pos, pt, "a namespace of a handler is missing")
		return
	}
	isTab := func(m *Term) bool { return m == tab || prev[m] && (put == nil || prev[tab] || putBefore(pt, put, m)) }
	// where do the events go
	inTab, byEvs := c.flows(pt, its, evs, nx.Seq, end, isTab)
	c.ob(inTab, "every", "JoinConnHandlers (events)", nx.Pos, pt, "not every event of a namespace gets into the result")
	if put != nil && had && !prev[tab] {
		for v := range prev {
			kept, byPrev := c.flows(pt, its, v, nx.Seq, end, isTab)
			c.ob(kept, "wins", "JoinConnHandlers (kept)", put.Pos, pt, "events of an earlier handler are lost")
			c.ob(byPrev < byEvs || byPrev == 0 || byEvs == 0, "wins", "JoinConnHandlers (order)", put.Pos, pt, "an earlier handler's event replaces a later one's")
		}
	} else {
		c.ob(true, "wins", "JoinConnHandlers (kept)", nx.Pos, pt, "")
	}
	// nothing foreign
	for _, e := range pt.Events {
		if !in(e) || e.Kind != "MapSet" || res[bare(e.Args[0])] {
			continue
		}
		pair := false
		for _, it := range its {
			for _, n := range it.nexts {
				pair = pair || n.Args[2] == e.Args[1] && n.Args[3] == e.Args[2]
			}
		}
		c.ob(pair, "every", "JoinConnHandlers (entry)", e.Pos, pt, "an event is not registered under its own name with its own handler")
	}
}

// mapGot: the value of a lookup.
func mapGot(e *Event) *Term {
	if e.Res == nil {
		return nil
	}
	if e.Res.Op == OpTuple {
		return bare(e.Res.Args[0])
	}
	return bare(e.Res)
}

// putBefore: m was read from the result after the table was put there.
func putBefore(pt *Path, put *Event, m *Term) bool {
	for _, e := range pt.Events {
		if e.Kind == "MapGet" && e.Seq > put.Seq && mapGot(e) == m {
			return true
		}
	}
	return false
}

// flows: all entries of src get into the table within the span, and when the last of them does.
func (c *Chk) flows(pt *Path, its []*iter, src *Term, from, to int, isTab func(*Term) bool) (bool, int) {
	reached := map[*Term]bool{src: true}
	at := 0
	for again := true; again; {
		again = false
		for _, it := range its {
			if it.rng.Seq <= from || it.rng.Seq >= to || !reached[it.src] {
				continue
			}
			if !it.finished(pt) {
				continue
			}
			// the tables that get every entry
			var into map[*Term]bool
			taken := 0
			last := 0
			for n, nx := range it.nexts {
				if !pt.Facts.is(nx.Args[1], true) {
					continue
				}
				end, _, _ := it.passEnd(pt, n)
				got := map[*Term]bool{}
				for _, e := range pt.Events {
					if e.Kind == "MapSet" && e.Seq > nx.Seq && e.Seq < end && e.Args[1] == nx.Args[2] && e.Args[2] == nx.Args[3] {
						m := bare(e.Args[0])
						got[m] = true
						if isTab(m) && e.Seq > last {
							last = e.Seq
						}
					}
				}
				if taken == 0 {
					into = got
				} else {
					for m := range into {
						if !got[m] {
							delete(into, m)
						}
					}
				}
				taken++
			}
			if taken == 0 {
				return true, 0 // there are none
			}
			for m := range into {
				if !reached[m] {
					reached[m] = true
					again = true
				}
				if isTab(m) {
					if last > at {
						at = last
					}
				}
			}
		}
	}
	for m := range reached {
		if isTab(m) && m != src {
			return true, at
		}
	}
	return isTab(src), at
}

func (c *Chk) plainRules() {
	scope := c.p.Root.Pkg.Scope()
	evT, nsT := scope.Lookup("Events").Type(), scope.Lookup("Namespaces").Type()
	if f := c.p.method("Events", "GetNamespaces"); c.ob(f != nil, "anchor", "Events.GetNamespaces", token.NoPos, nil, "not found") {
		for _, pt := range c.explore(f, "Events.GetNamespaces", c.base()) {
			if !complete(pt) {
				continue
			}
			r := bare(pt.Results[0])
			n := 0
			ok := owned(r)
			for _, e := range pt.Events {
				if e.Kind == "MapSet" {
					n++
					ok = ok && bare(e.Args[0]) == r && pt.Facts.isEmpty(e.Args[1]) && bare(e.Args[2]) == selfOf(f)
				}
			}
			c.ob(ok && n == 1, "plain", "Events.GetNamespaces", f.Pos(), pt, "not the events under the empty namespace alone")
		}
	}
	if f := c.p.method("Namespaces", "GetNamespaces"); c.ob(f != nil, "anchor", "Namespaces.GetNamespaces", token.NoPos, nil, "not found") {
		for _, pt := range c.explore(f, "Namespaces.GetNamespaces", c.base()) {
			if complete(pt) {
				c.ob(bare(pt.Results[0]) == selfOf(f), "plain", "Namespaces.GetNamespaces", f.Pos(), pt, "not the namespaces themselves")
			}
		}
	}
	join := c.p.fn("JoinConnHandlers")
	if f := c.p.method("WithTimeout", "GetNamespaces"); c.ob(f != nil && join != nil, "anchor", "WithTimeout.GetNamespaces", token.NoPos, nil, "not found") {
		st, _ := scope.Lookup("WithTimeout").Type().Underlying().(*types.Struct)
		var evF, nsF *types.Var
		for i := 0; st != nil && i < st.NumFields(); i++ {
			switch {
			case types.Identical(st.Field(i).Type(), evT):
				evF = st.Field(i)
			case types.Identical(st.Field(i).Type(), nsT):
				nsF = st.Field(i)
			}
		}
		if !c.ob(evF != nil && nsF != nil, "anchor", "WithTimeout", token.NoPos, nil, "its fields were not found") {
			return
		}
		self := selfOf(f)
		is := func(t *Term, fv *types.Var) bool {
			return bare(t).Op == OpField && bare(t).FieldVar == fv && bare(t).Args[0] == self || isFieldOf(bare(t), self, fv)
		}
		for _, pt := range c.explore(f, "WithTimeout.GetNamespaces", c.plus(map[*ssa.Function]string{join: "Join"})) {
			if !complete(pt) {
				continue
			}
			var call *Event
			for _, e := range pt.Events {
				if e.Kind == "Join" {
					call = e
				}
			}
			if call == nil {
				// nothing to combine
				r := bare(pt.Results[0])
				noEv := pt.Facts.isNil(TT2field(self, evF))
				noNS := pt.Facts.isNil(TT2field(self, nsF)) || lenZero(pt, TT2field(self, nsF))
				c.ob(is(r, nsF) && noEv || noNS && onlyEmpty(pt, r, func(t *Term) bool { return is(t, evF) }), "plain", "WithTimeout.GetNamespaces", f.Pos(), pt, "not the namespaces of both its fields")
				continue
			}
			els := c.listed(pt, call.Args[len(call.Args)-1], call.Seq)
			var nsAt, evAt = -1, -1
			for i, t := range els {
				switch {
				case is(t, nsF):
					nsAt = i
				case is(t, evF):
					evAt = i
				}
			}
			c.ob(len(els) == 2 && nsAt == 0 && evAt == 1, "plain", "WithTimeout.GetNamespaces (combined)", call.Pos, pt, "does not combine its namespaces and then its events")
			r := bare(pt.Results[0])
			ok := r.Op == OpAssert && r.Args[0] == call.Res || r == call.Res
			for _, e := range pt.Events {
				ok = ok || e.Kind == "Invoke" && e.Name == "neffos.ConnHandler.GetNamespaces" && e.Args[0] == call.Res && e.Res == r
			}
			c.ob(ok, "plain", "WithTimeout.GetNamespaces", f.Pos(), pt, "does not return the combination")
		}
	}
}

// TT2field: a field of a struct value.
func TT2field(v *Term, fv *types.Var) *Term { return mf(v, fv) }

// onlyEmpty: a new table with nothing but the given one under the empty name.
func onlyEmpty(pt *Path, r *Term, is func(*Term) bool) bool {
	if !owned(r) {
		return false
	}
	n, ok := 0, true
	for _, e := range pt.Events {
		if e.Kind == "MapSet" && bare(e.Args[0]) == r {
			n++
			ok = ok && pt.Facts.isEmpty(e.Args[1]) && is(bare(e.Args[2]))
		}
	}
	return ok && n == 1
}

// listed: the elements of an argument list made on this path.
func (c *Chk) listed(pt *Path, l *Term, seq int) []*Term {
	l = bare(l)
	if l.Op == OpArr {
		return l.Args
	}
	base := l
	for base.Op == OpSlice {
		base = base.Args[0]
	}
	var out []*Term
	for i := int64(0); ; i++ {
		var v *Term
		for _, e := range pt.Events {
			if e.Kind == "Store" && e.Seq < seq && e.Args[0].Op == OpIAddr && e.Args[0].Args[0] == base {
				if n, ok := e.Args[0].Args[1].IntVal(); ok && n == i {
					v = e.Args[1]
				}
			}
		}
		if v == nil {
			return out
		}
		out = append(out, v)
	}
}

// handlerKind is a type of handlers that has timeouts.
type handlerKind struct {
	name string
	typ  types.Type
	rd   *types.Var
	wr   *types.Var
}

func (c *Chk) handlerKinds() []handlerKind {
	scope := c.p.Root.Pkg.Scope()
	wt, _ := scope.Lookup("WithTimeout").(*types.TypeName)
	stn, _ := scope.Lookup("Struct").(*types.TypeName)
	if !c.ob(wt != nil && stn != nil, "anchor", "handlers", token.NoPos, nil, "WithTimeout or Struct not found") {
		return nil
	}
	var rd, wr *types.Var
	st := wt.Type().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "ReadTimeout":
			rd = st.Field(i)
		case "WriteTimeout":
			wr = st.Field(i)
		}
	}
	var srd, swr *types.Var
	set := c.p.method("Struct", "SetTimeouts")
	if c.ob(set != nil && len(set.Params) == 3, "anchor", "Struct.SetTimeouts", token.NoPos, nil, "not found") {
		self := selfOf(set)
		for _, pt := range c.explore(set, "Struct.SetTimeouts", c.base()) {
			if !complete(pt) {
				continue
			}
			var a, b *types.Var
			for _, e := range pt.Events {
				if e.Kind == "Store" && e.Args[0].Op == OpFAddr && e.Args[0].Args[0] == self {
					switch e.Args[1] {
					case TT.mk(OpParam, set.Params[1].Name(), set.Params[1].Type()):
						a = e.Args[0].FieldVar
					case TT.mk(OpParam, set.Params[2].Name(), set.Params[2].Type()):
						b = e.Args[0].FieldVar
					}
				}
			}
			c.ob(a != nil && b != nil && a != b && (srd == nil || srd == a && swr == b) && bare(pt.Results[0]) == self, "timeouts", "Struct.SetTimeouts", set.Pos(), pt, "does not keep both timeouts")
			srd, swr = a, b
		}
	}
	if !c.ob(rd != nil && wr != nil && srd != nil && swr != nil, "anchor", "handler timeouts", token.NoPos, nil, "the timeouts of the handlers were not found") {
		return nil
	}
	return []handlerKind{
		{"WithTimeout", wt.Type(), rd, wr},
		{"*WithTimeout", types.NewPointer(wt.Type()), rd, wr},
		{"*Struct", types.NewPointer(stn.Type()), srd, swr},
	}
}

// isTimeout: t is that field of the handler h, which is of that kind.
func isTimeout(t, h *Term, k handlerKind, fv *types.Var) bool {
	t = bare(t)
	var base *Term
	switch {
	case t.Op == OpField && t.FieldVar == fv:
		base = t.Args[0]
		if base.Op == OpLoad {
			base = base.Args[0]
		}
	case t.Op == OpLoad && t.Args[0].Op == OpFAddr && t.Args[0].FieldVar == fv:
		base = t.Args[0].Args[0]
	}
	return base != nil && base.Op == OpAssert && base.Args[0] == h && types.Identical(base.Typ, k.typ)
}

func (c *Chk) keeps(pt *Path, name string, ks []handlerKind, h, rdV, wrV *Term, pos token.Pos) {
	fa := pt.Facts
	if fa.isNil(h) {
		return
	}
	one := false
	for _, k := range ks {
		ok := TT.mk(OpAssertOK, typKey(k.typ), types.Typ[types.Bool], h)
		if ok.CTyp == nil {
			ok.CTyp = k.typ
		}
		switch fa.eval(ok) {
		case True:
			one = true
			c.ob(rdV != nil && isTimeout(rdV, h, k, k.rd), "timeouts", name+" (read, "+k.name+")", pos, pt, "the read timeout of a %s is not kept", k.name)
			c.ob(wrV != nil && isTimeout(wrV, h, k, k.wr), "timeouts", name+" (write, "+k.name+")", pos, pt, "the write timeout of a %s is not kept", k.name)
		case Unknown:
			c.ob(false, "timeouts", name+" ("+k.name+")", pos, pt, "whether the handler is a %s is not looked at", k.name)
			one = true
		}
	}
	if !one {
		z := func(t *Term) bool { return t == nil || isZero(t) || isZeroTerm(t) }
		c.ob(z(rdV) && z(wrV), "timeouts", name+" (none)", pos, pt, "a handler without timeouts gets some")
	}
}

func (c *Chk) timeoutRules() {
	r := c.r
	ks := c.handlerKinds()
	rd, wr := c.connTimeouts()
	srd, swr := c.serverTimeouts()
	if ks == nil || rd == nil || wr == nil || srd == nil || swr == nil {
		return
	}
	nsT := c.p.Root.Pkg.Scope().Lookup("Namespaces").Type()
	snf, cnf := structField(r.Server, same(nsT)), structField(r.Conn, same(nsT))
	if !c.ob(len(snf) == 1 && len(cnf) == 1, "anchor", "namespaces", token.NoPos, nil, "not found") {
		return
	}
	hOf := func(f *ssa.Function) *Term {
		for _, p := range f.Params {
			if n := namedOf(p.Type()); n != nil && n.Obj().Name() == "ConnHandler" {
				return TT.mk(OpParam, p.Name(), p.Type())
			}
		}
		return nil
	}
	own := func(t, h *Term, pt *Path) bool {
		if t == nil {
			return false
		}
		if pt.Facts.isNil(h) {
			return true
		}
		for _, e := range pt.Events {
			if e.Kind == "Invoke" && e.Name == "neffos.ConnHandler.GetNamespaces" && e.Args[0] == h && e.Res == t {
				return true
			}
		}
		return false
	}
	// first: when others see it
	first := func(pt *Path) *Event {
		for _, e := range pt.Events {
			if e.Kind == "Go" || e.Kind == "Send" || e.Kind == "Invoke" && (e.Name == "neffos.Socket.ReadData" || e.Name == "neffos.Socket.WriteText" || e.Name == "neffos.Socket.WriteBinary") {
				return e
			}
		}
		return nil
	}
	late := func(pt *Path, name string, seq int, obj *Term, fvs ...*types.Var) {
		for _, e := range pt.Events {
			if e.Kind == "Store" && e.Seq > seq && e.Args[0].Op == OpFAddr && e.Args[0].Args[0] == obj {
				for _, fv := range fvs {
					c.ob(e.Args[0].FieldVar != fv, "reach", name+" (late)", e.Pos, pt, "%s is set after others have seen it", fv.Name())
				}
			}
		}
	}
	if f := c.p.fn("New"); f != nil {
		h := hOf(f)
		if c.ob(h != nil, "anchor", "New", f.Pos(), nil, "has no handler") {
			for _, pt := range c.explore(f, "New", c.base()) {
				if !complete(pt) {
					continue
				}
				srv := bare(pt.Results[0])
				g := first(pt)
				if !c.ob(g != nil, "timeouts", "New (started)", f.Pos(), pt, "the server is not started") {
					continue
				}
				c.keeps(pt, "New", ks, h, c.fieldAt(pt, srv, srd, g.Seq), c.fieldAt(pt, srv, swr, g.Seq), f.Pos())
				c.ob(own(c.fieldAt(pt, srv, snf[0], g.Seq), h, pt), "timeouts", "New (namespaces)", f.Pos(), pt, "the server's namespaces are not the handler's")
				late(pt, "New", g.Seq, srv, srd, swr, snf[0])
			}
		}
	}
	if f := c.p.fn("Dial"); c.ob(f != nil && hOf(f) != nil, "anchor", "Dial", token.NoPos, nil, "not found") {
		h := hOf(f)
		for _, pt := range c.explore(f, "Dial", c.rootConfig(f)) {
			conn := c.newConnOf(pt)
			g := first(pt)
			if conn == nil || g == nil {
				continue
			}
			c.keeps(pt, "Dial", ks, h, c.fieldAt(pt, conn, rd, g.Seq), c.fieldAt(pt, conn, wr, g.Seq), f.Pos())
			c.ob(own(c.fieldAt(pt, conn, cnf[0], g.Seq), h, pt), "timeouts", "Dial (namespaces)", f.Pos(), pt, "the connection's namespaces are not the handler's")
			late(pt, "Dial", g.Seq, conn, rd, wr, cnf[0])
		}
	}
	up, paths := c.upgradePaths()
	srv := selfOf(up)
	for _, pt := range paths {
		conn := c.newConnOf(pt)
		if conn == nil {
			continue
		}
		g := first(pt)
		if g == nil {
			continue
		}
		is := func(fv, sv *types.Var) bool {
			v := c.fieldAt(pt, conn, fv, g.Seq)
			return v != nil && isFieldOf(v, srv, sv)
		}
		c.ob(is(rd, srd), "reach", "Upgrade (read)", g.Pos, pt, "a connection does not get the server's read timeout")
		c.ob(is(wr, swr), "reach", "Upgrade (write)", g.Pos, pt, "a connection does not get the server's write timeout")
		c.ob(is(cnf[0], snf[0]), "reach", "Upgrade (namespaces)", g.Pos, pt, "a connection does not get the server's namespaces")
		late(pt, "Upgrade", g.Seq, conn, rd, wr, cnf[0])
	}
	// their only use and only change
	all := map[*types.Var]bool{rd: true, wr: true, srd: true, swr: true}
	for _, k := range ks {
		all[k.rd], all[k.wr] = true, true
	}
	for _, f := range c.p.Funcs {
		if isTestFile(c.p, f) || !c.p.isRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					if fa, ok := i.Addr.(*ssa.FieldAddr); ok && all[fieldVarOf(fa)] {
						c.ob(c.visited[in], "only", "store in "+rel(c, f), in.Pos(), nil, "%s is changed outside of New, Dial, Upgrade and SetTimeouts", fieldVarOf(fa).Name())
					}
				case *ssa.Alloc:
					if namedOf(i.Type()) == r.Conn && types.Identical(i.Type().Underlying().(*types.Pointer).Elem(), r.Conn) {
						c.ob(c.visited[in], "reach", "connection made in "+rel(c, f), in.Pos(), nil, "a connection is made elsewhere")
					}
				case ssa.CallInstruction:
					cm := i.Common()
					if !cm.IsInvoke() || namedOf(cm.Value.Type()) != r.Socket {
						continue
					}
					var want *types.Var
					switch cm.Method.Name() {
					case "ReadData":
						want = rd
					case "WriteText", "WriteBinary":
						want = wr
					default:
						continue
					}
					okF := c.fieldSource(cm.Args[len(cm.Args)-1], r.Conn, 0) == want
					c.ob(okF, "reach", cm.Method.Name()+" in "+rel(c, f), in.Pos(), nil, "does not run with the connection's %s", want.Name())
				}
			}
		}
	}
}

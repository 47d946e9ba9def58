package main

// C20, second part: instances, presets and settings of handler structs.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const kindPtr, kindFunc, kindStruct, kindMap, kindSlice, kindArray = 22, 19, 25, 21, 23, 17

// kindIs: what the path knows of the kind of a type or value.
func kindIs(pt *Path, x *Term, kind int64) Tri {
	for _, sym := range []string{"reflect.Type.Kind", "(reflect.Value).Kind"} {
		if t := anyTerm(pt, pure(sym, x)); t != nil {
			if v := pt.Facts.eqv(t, TT.Int(kind)); v != Unknown {
				return v
			}
		}
	}
	return Unknown
}

// elemTypeOf: t is what the pointer type typ points to, on the path.
func elemTypeOf(pt *Path, t, typ *Term) bool {
	return isPure(t, "reflect.Type.Elem", typ) || t == typ && kindIs(pt, typ, kindPtr) == False
}

func (c *Chk) structConnect(h *handlerStruct, f *ssa.Function, outer *Path, wrap *Event, tab, typ, ptr, idx *Term) {
	self := selfOf(f)
	b := bindFn(outer, wrap.Args[2], nil)
	if !c.ob(b != nil && len(b.fn.Params) == 2, "instance", "connect event", wrap.Pos, outer, "what handles the connect event is not known") {
		return
	}
	h.wrappers[b.fn] = true
	name := rel(c, b.fn)
	conn, msg := paramN(b.fn, 0), paramN(b.fn, 1)
	get := func(t *Term) *Term {
		if v := b.get(t); v != nil {
			return plain(v)
		}
		return plain(t)
	}
	isInj := func(t *Term) bool { return isFieldOf(get(t), self, h.inj) }
	injNil := func(pt *Path) Tri {
		if t := anyTerm(outer, func(t *Term) bool { return isFieldOf(t, self, h.inj) }); t != nil {
			if v := outer.Facts.nilness(t); v != Unknown {
				return v
			}
		}
		if t := anyTerm(pt, isInj); t != nil {
			return pt.Facts.nilness(t)
		}
		return Unknown
	}
	isType := func(t *Term) bool {
		if elemTypeOf(outer, get(t), typ) {
			return true
		}
		return isPure(t, "reflect.Type.Elem", nil) && get(t.Args[0]) == typ
	}
	// the struct's own connect callback
	var own *Event
	for _, e := range outer.Events {
		if e.Kind == "MapGet" && bare(e.Args[0]) == tab && outer.Facts.eqStr(e.Args[1], h.connectName) && e.Seq < wrap.Seq {
			own = e
		}
	}
	c.ob(own != nil, "before", "Struct.Events (own callback)", wrap.Pos, outer, "the struct's own connect callback is not looked for")
	if own != nil {
		for _, e := range outer.Events {
			if e.Kind == "MapSet" && bare(e.Args[0]) == tab && e.Seq > own.Seq && e != wrap {
				c.ob(false, "before", "Struct.Events (late)", e.Pos, outer, "methods are registered after the connect callback was looked for")
			}
		}
	}
	var ownOK, ownV *Term
	if own != nil {
		ownV = mapGot(own)
		if own.Res.Op == OpTuple {
			ownOK = own.Res.Args[1]
		}
	}
	isPresets := func(pt *Path, t *Term) bool {
		v := get(t)
		for _, p := range []*Path{outer, pt} {
			for _, e := range p.Events {
				if e.Kind == "Presets" && e.Res == v && get(e.Args[0]) == ptr {
					return true
				}
			}
		}
		return false
	}
	for _, pt := range c.explore(b.fn, "connect event "+name, c.structConfig(b.fn)) {
		if !complete(pt) {
			continue
		}
		fa := pt.Facts
		if t := anyTerm(pt, isInj); t != nil {
			if was := anyTerm(outer, func(t *Term) bool { return isFieldOf(t, self, h.inj) }); was != nil {
				if a, b := fa.nilness(t), outer.Facts.nilness(was); a != Unknown && b != Unknown && a != b {
					continue // cannot be
				}
			}
		}
		// the instance
		var inst *Event
		n := 0
		fresh := false
		for _, e := range pt.Events {
			switch {
			case e.Kind == "Call" && e.Name == "reflect.New":
				n++
				inst = e
				fresh = true
				c.ob(isType(e.Args[0]), "instance", name+" (type)", e.Pos, pt, "the instance is of another type")
				c.ob(injNil(pt) == True, "instance", name+" (injector)", e.Pos, pt, "the injector is not asked for the instance")
			case e.Kind == "Dyn" && isReflect(resultOf(e), "Value"):
				n++
				inst = e
				v := get(e.Args[0])
				c.ob(len(e.Args) == 3 && isType(e.Args[1]) && e.Args[2] == conn, "instance", name+" (asked)", e.Pos, pt, "the instance is not asked for with its type and the connection")
				if isInj(e.Args[0]) {
					c.ob(injNil(pt) == False, "instance", name+" (no injector)", e.Pos, pt, "there may be no injector")
					continue
				}
				fresh = true
				c.ob(c.makesNew(h, outer, v), "instance", name+" (new)", e.Pos, pt, "the instance is not a new one")
				c.ob(injNil(pt) == True, "instance", name+" (injector)", e.Pos, pt, "the injector is not asked for the instance")
			}
		}
		if !c.ob(n == 1, "instance", name+" (one)", b.fn.Pos(), pt, "%d instances are made", n) {
			continue
		}
		var connSet, kept *Event
		inField := func(t *Term) *Term {
			if !isPure(t, "(reflect.Value).Field", nil, nil) {
				return nil
			}
			x := t.Args[0]
			if isPure(x, "(reflect.Value).Elem", nil) || isPure(x, "reflect.Indirect", nil) {
				if x.Args[0] == inst.Res || kept != nil && kept.Args[1] == inst.Res && isFieldOf(x.Args[0], conn, h.value) {
					return t.Args[1]
				}
			}
			return nil
		}
		// its fields
		last := 1 << 30 // from here on others see it
		for _, e := range pt.Events {
			if e.Seq > inst.Seq && e.Seq < last && (e.Kind == "Dyn" || e.Kind == "Go" || e.Kind == "Invoke") {
				last = e.Seq
			}
		}
		var sets []*Event
		for _, e := range pt.Events {
			if e.Kind == "Call" && e.Name == "(reflect.Value).Set" {
				k := inField(e.Args[0])
				if k == nil {
					c.ob(false, "holds", name+" (set)", e.Pos, pt, "%s is set, which is no field of the instance", e.Args[0])
					continue
				}
				if get(k) == idx && isPure(e.Args[1], "reflect.ValueOf", nil) && plain(e.Args[1].Args[0]) == conn {
					connSet = e
					continue
				}
				sets = append(sets, e)
			}
			if e.Kind == "Store" {
				if fv, o := cellField(e.Args[0]); fv == h.value && o == conn {
					c.ob(kept == nil, "holds", name+" (once)", e.Pos, pt, "two instances are kept")
					kept = e
				}
			}
		}
		if !c.ob(connSet != nil, "holds", name+" (connection)", b.fn.Pos(), pt, "the instance does not hold its connection") || !c.ob(kept != nil && kept.Args[1] == inst.Res, "holds", name+" (kept)", b.fn.Pos(), pt, "the instance is not kept for the connection") {
			continue
		}
		c.ob(connSet.Seq < last && kept.Seq < last, "holds", name+" (order)", kept.Pos, pt, "the instance is used before it is kept and holds its connection")
		var over *iter
		for _, it := range iters(pt) {
			if isPresets(pt, it.src) {
				over = it
			}
		}
		for _, e := range sets {
			k := inField(e.Args[0])
			from := false
			if over != nil {
				for _, nx := range over.nexts {
					from = from || nx.Args[2] == k && nx.Args[3] == e.Args[1]
				}
			}
			if !from {
				// a preset of which it is known that there is none
				for _, it := range iters(pt) {
					if v := get(it.src); v.IsNil() || outer.Facts.isNil(v) {
						for _, nx := range it.nexts {
							from = from || nx.Args[2] == k && nx.Args[3] == e.Args[1]
						}
					}
				}
			}
			c.ob(from, "holds", name+" (others)", e.Pos, pt, "a field is set to %s", e.Args[1])
			apart := pt.Facts.eval(mkEq(k, idx)) == False
			if t := anyTerm(pt, func(t *Term) bool { return get(t) == idx }); t != nil {
				apart = apart || pt.Facts.eval(mkEq(k, t)) == False
			}
			c.ob(e.Seq < connSet.Seq || apart, "holds", name+" (last)", e.Pos, pt, "a preset field may replace the connection")
			c.ob(e.Seq < last, "holds", name+" (order)", e.Pos, pt, "a preset field is set after the instance is used")
		}
		if fresh {
			if c.ob(over != nil, "holds", name+" (presets)", b.fn.Pos(), pt, "the preset fields are not set") {
				c.ob(over.finished(pt), "holds", name+" (all presets)", over.rng.Pos, pt, "not all of the preset fields are set")
				for i, nx := range over.nexts {
					if !fa.is(nx.Args[1], true) {
						continue
					}
					end, _, _ := over.passEnd(pt, i)
					done := false
					for _, e := range sets {
						done = done || e.Seq > nx.Seq && e.Seq < end && inField(e.Args[0]) == nx.Args[2] && e.Args[1] == nx.Args[3]
					}
					if !done {
						// the connection's own field
						if t := anyTerm(pt, func(t *Term) bool { return get(t) == idx }); t != nil {
							done = fa.eval(mkEq(nx.Args[2], t)) == True
						}
					}
					c.ob(done, "holds", name+" (preset)", nx.Pos, pt, "a preset field is not set")
				}
			}
		}
		// the callback
		var call *Event
		for _, e := range pt.Events {
			if e.Kind == "Dyn" && e != inst {
				c.ob(call == nil && ownV != nil && get(e.Args[0]) == ownV, "before", name+" (calls)", e.Pos, pt, "something else than the struct's own connect callback is called")
				call = e
			}
		}
		r := pt.Results[0]
		if call == nil {
			none := own != nil && absent(outer, own)
			for a := range fa.b {
				if ownOK != nil && get(a) == ownOK && fa.is(a, false) {
					none = true
				}
				if a.Op == OpBin && a.Sym == "==" && ownV != nil {
					for k := 0; k < 2; k++ {
						none = none || get(a.Args[k]) == ownV && a.Args[1-k].IsNil() && fa.is(a, true)
					}
				}
			}
			if ownV != nil {
				if t := anyTerm(pt, func(t *Term) bool { return get(t) == ownV }); t != nil {
					none = none || fa.isNil(t)
				}
			}
			c.ob(none && fa.isNil(r), "before", name+" (none)", b.fn.Pos(), pt, "the struct's own connect callback is not called")
			continue
		}
		c.ob(call.Seq > kept.Seq, "before", name+" (order)", call.Pos, pt, "the connect callback is called before the instance is in place")
		c.ob(len(call.Args) == 3 && call.Args[1] == conn && call.Args[2] == msg && r == call.Res, "before", name+" (result)", call.Pos, pt, "the connect callback is not given the connection and the message, or its result is lost")
	}
}

func resultOf(e *Event) types.Type {
	if e.Res == nil || e.Res.Typ == nil {
		return types.Typ[types.Invalid]
	}
	return e.Res.Typ
}

// makesNew: the function gives a new value of the type it is given.
func (c *Chk) makesNew(h *handlerStruct, outer *Path, v *Term) bool {
	b := bindFn(outer, v, nil)
	if b == nil || len(b.fn.Params) != 2 {
		return false
	}
	n := 0
	for _, pt := range c.explore(b.fn, "default injector", c.structConfig(b.fn)) {
		if !complete(pt) {
			continue
		}
		ok := false
		for _, e := range pt.Events {
			if e.Kind == "Call" && e.Name == "reflect.New" && e.Res == pt.Results[0] && e.Args[0] == paramN(b.fn, 0) {
				ok = true
			}
		}
		if !ok {
			return false
		}
		n++
	}
	return n > 0
}

// structOf: the struct type behind a type, on the path.
func structOf(pt *Path, t *Term) *Term {
	if kindIs(pt, t, kindPtr) == True {
		if e := anyTerm(pt, pure("reflect.Type.Elem", t)); e != nil {
			return e
		}
	}
	return t
}

func (c *Chk) structKinds(h *handlerStruct) {
	for _, f := range h.preds["TT>i"] {
		name := rel(c, f)
		for _, pt := range c.explore(f, name, c.structConfig(f)) {
			if !complete(pt) {
				continue
			}
			fa := pt.Facts
			st := structOf(pt, paramN(f, 0))
			if !c.ob(st != paramN(f, 0) || kindIs(pt, st, kindPtr) == False, "kinds", name+" (pointer)", f.Pos(), pt, "the struct behind a pointer is not looked at") {
				continue
			}
			ixs, ended, ok := counted(pt, TT.mk(OpPure, "reflect.Type.NumField", intT, st))
			if !c.ob(ok, "kinds", name+" (loop)", f.Pos(), pt, "the loop over the fields cannot be followed") {
				continue
			}
			r := pt.Results[0]
			found := false
			for _, ix := range ixs {
				is := eqField(pt, pure("reflect.Type.Field", st, ix), "Type", paramN(f, 1))
				if is == True && r == ix {
					found = true
					break
				}
				if !c.ob(is == False, "kinds", name+" (field)", f.Pos(), pt, "a field of the type is passed over") {
					break
				}
			}
			if !found {
				c.ob(ended && fa.eqv(r, TT.Int(-1)) == True, "kinds", name+" (none)", f.Pos(), pt, "the result %s is no field of the type", r)
			} else {
				c.ob(true, "kinds", name+" (found)", f.Pos(), pt, "")
			}
		}
	}
	for _, f := range h.preds["TT>b"] {
		name := rel(c, f)
		for _, pt := range c.explore(f, name, c.structConfig(f)) {
			if !complete(pt) {
				continue
			}
			ixs, ended, ok := counted(pt, TT.mk(OpPure, "reflect.Type.NumIn", intT, paramN(f, 0)))
			has := Unknown
			if ok && ended {
				has = False
			}
			for _, ix := range ixs {
				is := Unknown
				if t := anyTerm(pt, pure("reflect.Type.In", paramN(f, 0), ix)); t != nil {
					is = pt.Facts.eval(mkEq(t, paramN(f, 1)))
				}
				if is == True {
					has = True
				} else if is == Unknown && has == False {
					has = Unknown
				}
			}
			c.ob(has != Unknown && pt.Facts.is(pt.Results[0], has == True), "kinds", name, f.Pos(), pt, "it does not tell whether the type is among the inputs")
		}
	}
	f := c.p.fn("IsSystemEvent")
	if !c.ob(f != nil && len(f.Params) == 1, "anchor", "IsSystemEvent", token.NoPos, nil, "not found") {
		return
	}
	var names []string
	for _, n := range []string{"OnNamespaceConnect", "OnNamespaceConnected", "OnNamespaceDisconnect", "OnRoomJoin", "OnRoomJoined", "OnRoomLeave", "OnRoomLeft"} {
		v := c.evName(n)
		c.ob(v == "_"+n, "kinds", "event name "+n, token.NoPos, nil, "the event is called %q, its method cannot be found by its name", v)
		names = append(names, v)
	}
	for _, pt := range c.explore(f, "IsSystemEvent", c.base()) {
		if !complete(pt) {
			continue
		}
		for _, val := range []bool{true, false} {
			fa := pt.Facts.clone()
			if fa.eval(pt.Results[0]) == tri(!val) || !fa.assume(pt.Results[0], val) {
				continue
			}
			is, not := false, true
			for _, n := range names {
				is = is || fa.eqStr(paramN(f, 0), n)
				not = not && fa.neStr(paramN(f, 0), n)
			}
			c.ob(val && is || !val && not, "kinds", "IsSystemEvent", f.Pos(), pt, "lifecycle events are not exactly the seven of them")
		}
	}
}

// eqField: a field of a value that fits equals v.
func eqField(pt *Path, fits func(*Term) bool, field string, v *Term) Tri {
	t := anyTerm(pt, func(t *Term) bool { return fieldNamed(t, nil, field) && fits(t.Args[0]) })
	if t == nil {
		return Unknown
	}
	return pt.Facts.eval(mkEq(t, v))
}

func (c *Chk) structPresets(h *handlerStruct) {
	for _, f := range h.preds["V>M"] {
		name := rel(c, f)
		for _, pt := range c.explore(f, name, c.structConfig(f)) {
			if pt.Outcome == "panic" {
				continue
			}
			c.presetPath(h, f, pt, name)
		}
	}
}

func (c *Chk) presetPath(h *handlerStruct, f *ssa.Function, pt *Path, name string) {
	fa := pt.Facts
	arg := paramN(f, 0)
	v := anyTerm(pt, func(t *Term) bool {
		return isPure(t, "reflect.Indirect", arg) || isPure(t, "(reflect.Value).Elem", arg)
	})
	if !c.ob(v != nil, "presets", name+" (struct)", f.Pos(), pt, "the struct behind the pointer is not looked at") {
		return
	}
	typ := anyTerm(pt, pure("(reflect.Value).Type", v))
	var ixs []*Term
	ended, ok := false, true
	var owner *Term
	var nums []*Term
	if typ != nil {
		owner = structOf(pt, typ)
		nums = append(nums, TT.mk(OpPure, "reflect.Type.NumField", intT, owner))
	}
	nums = append(nums, TT.mk(OpPure, "(reflect.Value).NumField", intT, v))
	for _, n := range nums {
		if x, e, k := counted(pt, n); e || len(x) > 0 {
			ixs, ended, ok = x, e, k
			break
		}
	}
	if !c.ob(ok && owner != nil, "presets", name+" (loop)", f.Pos(), pt, "the loop over the fields cannot be followed") {
		return
	}
	// F.Index[0] is the index of a field of the struct itself
	at := func(k *Term, ix *Term) bool {
		if k == ix {
			return true
		}
		return k.any(func(t *Term) bool { return isPure(t, "reflect.Type.Field", owner, ix) }) && k.any(func(t *Term) bool { return fieldNamed(t, nil, "Index") })
	}
	var tab *Term
	sets := map[*Term][]*Event{}
	for _, e := range pt.Events {
		if e.Kind == "MapSet" {
			m := first(bare(e.Args[0]))
			if tab != nil && tab != m && anyTerm(pt, func(t *Term) bool { return t.Op == OpPhi && first(t) == tab && fa.isNil(t) }) != nil {
				return // the table that was made is there in the next pass
			}
			tab = m
		}
	}
	tab = nil
	for _, e := range pt.Events {
		switch e.Kind {
		case "MapDel":
			c.ob(false, "presets", name+" (deleted)", e.Pos, pt, "a preset is removed")
		case "MapSet":
			m := first(bare(e.Args[0]))
			c.ob(owned(m) && (tab == nil || tab == m), "presets", name+" (table)", e.Pos, pt, "the presets are not kept in one table")
			tab = m
			known := false
			for _, ix := range ixs {
				if at(e.Args[1], ix) {
					known = true
					sets[ix] = append(sets[ix], e)
					val := e.Args[2]
					c.ob(isPure(val, "(reflect.Value).Field", v, nil) && at(val.Args[1], ix), "presets", name+" (value)", e.Pos, pt, "the preset of a field is the value of another")
				}
			}
			c.ob(known, "presets", name+" (index)", e.Pos, pt, "a preset is kept under %s, which is no index of a field", e.Args[1])
		}
	}
	for i, ix := range ixs {
		if i == len(ixs)-1 && pt.Outcome == "loop" {
			continue
		}
		exp := eqField(pt, pure("reflect.Type.Field", owner, ix), "PkgPath", TT.Str(""))
		if t := anyTerm(pt, func(t *Term) bool {
			return t.Op == OpPure && t.Sym == "(reflect.StructField).IsExported" && isPure(t.Args[0], "reflect.Type.Field", owner, ix)
		}); t != nil {
			exp = fa.eval(t)
		}
		if t := anyTerm(pt, func(t *Term) bool {
			return (isPure(t, "(reflect.Value).CanSet", nil) || isPure(t, "(reflect.Value).CanInterface", nil)) && isPure(t.Args[0], "(reflect.Value).Field", v, nil) && at(t.Args[0].Args[1], ix)
		}); t != nil && exp == Unknown {
			exp = fa.eval(t)
		}
		zero := Unknown
		for _, z := range h.preds["V>b"] {
			if t := anyTerm(pt, func(t *Term) bool {
				return isPure(t, z.String(), nil) && isPure(t.Args[0], "(reflect.Value).Field", v, nil) && at(t.Args[0].Args[1], ix)
			}); t != nil {
				zero = fa.eval(t)
			}
		}
		if len(sets[ix]) > 0 {
			c.ob(exp == True && zero == False, "presets", name+" (kept)", sets[ix][0].Pos, pt, "a field is preset that is zero or cannot be set")
		} else {
			c.ob(exp == False || zero == True, "presets", name+" (left out)", f.Pos(), pt, "a field that is not zero is not preset")
		}
	}
	if complete(pt) {
		r := first(bare(pt.Results[0]))
		c.ob(ended, "presets", name+" (all)", f.Pos(), pt, "not all fields are looked at")
		c.ob(tab != nil && r == tab || tab == nil && (fa.isNil(r) || owned(r)), "presets", name+" (result)", f.Pos(), pt, "the result is not the presets")
	}
}

// first: what a variable that a loop carries on was before.
func first(t *Term) *Term {
	for n := 0; n < 8 && t.Op == OpPhi && len(t.Args) == 2; n++ {
		t = t.Args[1]
	}
	return bare(t)
}

func (c *Chk) structZero(h *handlerStruct) {
	for _, f := range h.preds["V>b"] {
		name := rel(c, f)
		v := paramN(f, 0)
		cfg := c.structConfig(f)
		for _, pt := range c.explore(f, name, cfg) {
			if !complete(pt) {
				continue
			}
			c.zeroPath(h, f, pt, v, name)
		}
	}
}

func (c *Chk) zeroPath(h *handlerStruct, f *ssa.Function, pt *Path, v *Term, name string) {
	fa := pt.Facts
	r := pt.Results[0]
	kind := func(k int64) Tri { return kindIs(pt, v, k) }
	// all parts: the loop over the fields or elements
	parts := func(num, elem string) Tri {
		ixs, ended, ok := counted(pt, num2(pt, num, v))
		all := Unknown
		if ok && ended {
			all = True
		}
		for _, ix := range ixs {
			z := Unknown
			for _, p := range h.preds["V>b"] {
				if t := anyTerm(pt, func(t *Term) bool { return isPure(t, p.String(), nil) && c.partOf(pt, t.Args[0], elem, v, ix) }); t != nil {
					z = fa.eval(t)
				}
			}
			if z == False {
				return False
			}
			if z == Unknown {
				all = Unknown
			}
		}
		return all
	}
	if t := anyTerm(pt, pure("(reflect.Value).IsValid", v)); t != nil && fa.is(t, false) && kind(0) == False {
		return // it has a kind
	}
	if t := anyTerm(pt, pure("(reflect.Value).Type", v)); t != nil && fa.isNil(t) {
		return
	}
	switch {
	case kind(kindStruct) == True:
		var call *Event
		for _, e := range pt.Events {
			if e.Kind == "Call" && e.Name == "(reflect.Value).Call" {
				call = e
			}
		}
		usable, why := c.zeroMethod(pt, v)
		if call != nil {
			c.ob(usable == True && call.Args[0].any(func(t *Term) bool { return t == v }), "zero", name+" (method)", call.Pos, pt, "a method is called that %s", why)
			c.ob(r.any(func(t *Term) bool { return true }) && r.Op == OpAssert, "zero", name+" (its result)", call.Pos, pt, "the result of IsZero is not used")
			return
		}
		if usable == True {
			// v.Method(i) is always there
			if t := anyTerm(pt, func(t *Term) bool { return isPure(t, "(reflect.Value).Method", v, nil) }); t != nil {
				return
			}
		}
		c.ob(usable == False, "zero", name+" (no method)", f.Pos(), pt, "a usable IsZero method is not asked")
		all := parts("(reflect.Value).NumField", "(reflect.Value).Field")
		c.ob(all != Unknown && fa.is(r, all == True), "zero", name+" (struct)", f.Pos(), pt, "a struct is zero exactly when all fields are")
	case kind(kindArray) == True:
		all := parts("(reflect.Value).Len", "(reflect.Value).Index")
		c.ob(all != Unknown && fa.is(r, all == True), "zero", name+" (array)", f.Pos(), pt, "an array is zero exactly when all elements are")
	case kind(kindFunc) == True || kind(kindMap) == True || kind(kindSlice) == True:
		ok := false
		for _, e := range pt.Events {
			ok = ok || e.Kind == "Call" && e.Name == "(reflect.Value).IsNil" && e.Args[0] == v && e.Res == r
		}
		c.ob(ok, "zero", name+" (nil)", f.Pos(), pt, "a function, map or slice is zero exactly when it is nil")
	default:
		rest := kind(kindStruct) == False && kind(kindArray) == False && kind(kindFunc) == False && kind(kindMap) == False && kind(kindSlice) == False
		if !c.ob(rest, "zero", name+" (kinds)", f.Pos(), pt, "the kind of the value is not looked at") {
			return
		}
		can := Unknown
		if t := anyTerm(pt, pure("(reflect.Value).CanInterface", v)); t != nil {
			can = fa.eval(t)
		}
		if can == False {
			c.ob(fa.is(r, false), "zero", name+" (hidden)", f.Pos(), pt, "a value that cannot be looked at counts as zero")
			return
		}
		if !c.ob(can == True, "zero", name+" (visible)", f.Pos(), pt, "the value is used without knowing that it can be") {
			return
		}
		var mine, zero *Term
		for _, e := range pt.Events {
			if e.Kind == "Call" && e.Name == "(reflect.Value).Interface" {
				if e.Args[0] == v {
					mine = e.Res
				}
				for _, z := range pt.Events {
					if z.Kind == "Call" && z.Name == "reflect.Zero" && z.Res == e.Args[0] && isPure(z.Args[0], "(reflect.Value).Type", v) {
						zero = e.Res
					}
				}
			}
			if e.Kind == "Call" && e.Name == "(reflect.Value).IsZero" && e.Args[0] == v && e.Res == r {
				c.ob(true, "zero", name+" (value)", f.Pos(), pt, "")
				return
			}
		}
		good := false
		if mine != nil && zero != nil {
			eq := mkEq(mine, zero)
			good = r == eq || fa.eval(eq) != Unknown && fa.is(r, fa.eval(eq) == True)
		}
		c.ob(good, "zero", name+" (value)", f.Pos(), pt, "a value is zero exactly when it equals the zero value of its type")
	}
}

func num2(pt *Path, sym string, v *Term) *Term {
	for _, e := range pt.Events {
		if e.Kind == "Call" && e.Name == sym && e.Args[0] == v && e.Res != nil {
			return e.Res
		}
	}
	return TT.mk(OpPure, sym, intT, v)
}

func (c *Chk) partOf(pt *Path, t *Term, sym string, v, ix *Term) bool {
	if isPure(t, sym, v, ix) {
		return true
	}
	for _, e := range pt.Events {
		if e.Kind == "Call" && e.Name == sym && e.Res == t && e.Args[0] == v && e.Args[1] == ix {
			return true
		}
	}
	return false
}

// zeroMethod: the value has an IsZero method that can be called.
func (c *Chk) zeroMethod(pt *Path, v *Term) (Tri, string) {
	fa := pt.Facts
	by := anyTerm(pt, func(t *Term) bool {
		return t.Op == OpPure && t.Sym == "reflect.Type.MethodByName#1" && isPure(t.Args[0], "(reflect.Value).Type", v) && fa.eqStr(t.Args[1], "IsZero")
	})
	all := True
	why := ""
	part := func(t Tri, w string) {
		if t == False {
			all, why = False, w
		} else if t == Unknown && all == True {
			all, why = Unknown, w
		}
	}
	if by == nil {
		return Unknown, "is not IsZero"
	}
	part(fa.eval(by), "may not be there")
	typ := anyTerm(pt, func(t *Term) bool {
		return fieldNamed(t, nil, "Type") && t.Args[0].Op == OpPure && t.Args[0].Sym == "reflect.Type.MethodByName#0"
	})
	if typ == nil {
		if fa.eval(by) == False {
			return False, ""
		}
		return Unknown, "has an unknown signature"
	}
	nin := TT.mk(OpPure, "reflect.Type.NumIn", intT, typ)
	lo, hi := fa.rng(nin)
	switch {
	case hi <= 1:
		part(True, "")
	case lo > 1 || fa.eval(mkBin(token.GTR, nin, TT.Int(1), types.Typ[types.Bool])) == True || fa.eqv(nin, TT.Int(1)) == False:
		part(False, "")
	case fa.eval(mkBin(token.GTR, nin, TT.Int(1), types.Typ[types.Bool])) == False:
		part(True, "")
	default:
		part(Unknown, "may have inputs")
	}
	part(fa.eqv(TT.mk(OpPure, "reflect.Type.NumOut", intT, typ), TT.Int(1)), "may not have one result")
	out := Unknown
	if t := anyTerm(pt, pure("reflect.Type.Out", typ, TT.Int(0))); t != nil {
		out = fa.eval(mkEq(t, typeTerm(types.Typ[types.Bool])))
	}
	part(out, "may not give a bool")
	can := Unknown
	if t := anyTerm(pt, pure("(reflect.Value).CanInterface", v)); t != nil {
		can = fa.eval(t)
	}
	part(can, "may be out of reach")
	return all, why
}

func (c *Chk) structMatchers() {
	for _, gname := range []string{"EventPrefixMatcher", "EventTrimPrefixMatcher"} {
		g, _ := c.p.Root.Members[gname].(*ssa.Global)
		var fn *ssa.Function
		if g != nil && c.p.globals[g] != nil {
			fn = c.p.globals[g].Fn
		}
		if ff := c.p.fn(gname); ff != nil {
			fn = ff
		}
		if !c.ob(fn != nil && len(fn.Params) == 1, "anchor", gname, token.NoPos, nil, "not found") {
			continue
		}
		for _, outer := range c.explore(fn, gname, c.base()) {
			if !complete(outer) {
				continue
			}
			b := bindFn(outer, outer.Results[0], nil)
			if !c.ob(b != nil && len(b.fn.Params) == 1, "matchers", gname+" (matcher)", fn.Pos(), outer, "the matcher is not known") {
				continue
			}
			nm := paramN(b.fn, 0)
			prefix := func(t *Term) bool { return b.is(t, paramN(fn, 0)) }
			of2 := func(t *Term, syms ...string) bool {
				for _, s := range syms {
					if t.Op == OpPure && t.Sym == s && len(t.Args) == 2 && t.Args[0] == nm && prefix(t.Args[1]) {
						return true
					}
				}
				return false
			}
			for _, pt := range c.explore(b.fn, gname+" matcher", c.base()) {
				if !complete(pt) {
					continue
				}
				fa := pt.Facts
				has := Unknown
				if t := anyTerm(pt, func(t *Term) bool { return of2(t, "strings.HasPrefix", "strings.CutPrefix#1") }); t != nil {
					has = fa.eval(t)
				} else if r := pt.Results[1]; of2(r, "strings.HasPrefix", "strings.CutPrefix#1") {
					has = True // one path for both
				}
				for _, e := range pt.Events {
					if e.Kind == "Call" && e.Name == "strings.CutPrefix" && e.Args[0] == nm && prefix(e.Args[1]) {
						has = fa.eval(e.Res.Args[1])
					}
				}
				ok := pt.Results[1]
				if has == Unknown {
					c.ob(false, "matchers", gname+" (prefix)", b.fn.Pos(), pt, "the name is not compared with the prefix")
					continue
				}
				c.ob(of2(ok, "strings.HasPrefix", "strings.CutPrefix#1") || fa.is(ok, has == True), "matchers", gname+" (accepts)", b.fn.Pos(), pt, "names with the prefix are not exactly the accepted ones")
				if has != True {
					continue
				}
				r := pt.Results[0]
				if gname == "EventPrefixMatcher" {
					c.ob(r == nm, "matchers", gname+" (name)", b.fn.Pos(), pt, "the event is called %s", r)
					continue
				}
				cut := of2(r, "strings.TrimPrefix", "strings.CutPrefix#0")
				for _, e := range pt.Events {
					cut = cut || e.Kind == "Call" && e.Name == "strings.CutPrefix" && e.Args[0] == nm && prefix(e.Args[1]) && r == e.Res.Args[0]
				}
				if r.Op == OpSlice && r.Args[0] == nm && len(r.Args) >= 2 && r.Args[1] != nil && r.Args[1].Op == OpLen && prefix(r.Args[1].Args[0]) {
					cut = len(r.Args) < 3 || r.Args[2] == nil || r.Args[2].IsNil() || r.Args[2] == mkLen(nm)
				}
				c.ob(cut, "matchers", gname+" (name)", b.fn.Pos(), pt, "the event is called %s", r)
			}
		}
	}
}

func (c *Chk) structNamespace(h *handlerStruct) {
	f, evs := c.p.method("Struct", "GetNamespaces"), c.p.method("Struct", "Events")
	if !c.ob(f != nil && evs != nil, "anchor", "Struct.GetNamespaces", token.NoPos, nil, "not found") {
		return
	}
	self := selfOf(f)
	cfg := c.structConfig(f)
	inner := cfg.Opaque
	cfg.Opaque = func(fn *ssa.Function) string {
		if fn == evs {
			return "StructEvents"
		}
		return inner(fn)
	}
	for _, pt := range c.explore(f, "Struct.GetNamespaces", cfg) {
		if !complete(pt) {
			continue
		}
		fa := pt.Facts
		r := bare(pt.Results[0])
		var set, resolve *Event
		n := 0
		var made *Term
		for _, e := range pt.Events {
			switch e.Kind {
			case "MapSet":
				n++
				set = e
			case "Resolve":
				resolve = e
			case "StructEvents":
				if e.Args[0] == self {
					made = e.Res
				}
			}
		}
		if !c.ob(n == 1 && owned(r) && bare(set.Args[0]) == r && made != nil && set.Args[2] == made, "namespace", "Struct.GetNamespaces (events)", f.Pos(), pt, "the result is not the struct's events alone") {
			continue
		}
		var was *Term // before it is resolved
		for _, e := range pt.Events {
			if e.Kind == "Load" && was == nil {
				if fv, o := cellField(e.Args[0]); fv == h.ns && o == self {
					was = e.Res
				}
			}
		}
		if was == nil {
			was = anyTerm(pt, func(t *Term) bool { return isFieldOf(t, self, h.ns) })
		}
		if !c.ob(was != nil, "namespace", "Struct.GetNamespaces (set)", f.Pos(), pt, "the set namespace is not looked at") {
			continue
		}
		key := set.Args[1]
		if fa.isEmpty(was) {
			c.ob(resolve != nil && isFieldOf(resolve.Args[0], self, h.ptr) && resolve.Res.Op == OpTuple && (key == resolve.Res.Args[0] || (fa.isEmpty(key) || isFieldOf(key, self, h.ns)) && fa.is(resolve.Res.Args[1], false)), "namespace", "Struct.GetNamespaces (own)", set.Pos, pt, "the namespace %s is not that of the struct", key)
		} else {
			c.ob(key == was && fa.neStr(was, ""), "namespace", "Struct.GetNamespaces (set)", set.Pos, pt, "the namespace %s is not the one that was set", key)
		}
	}
	for _, g := range h.preds["V>sb"] {
		c.resolvePaths(h, g)
	}
}

// resolvePaths: the namespace of the value's method or field.
func (c *Chk) resolvePaths(h *handlerStruct, f *ssa.Function) {
	name := rel(c, f)
	v := paramN(f, 0)
	for _, pt := range c.explore(f, name, c.structConfig(f)) {
		if !complete(pt) {
			continue
		}
		fa := pt.Facts
		s, ok := pt.Results[0], pt.Results[1]
		// the method
		has := Unknown
		if t := anyTerm(pt, func(t *Term) bool {
			return t.Op == OpPure && t.Sym == "reflect.Type.MethodByName#1" && isPure(t.Args[0], "(reflect.Value).Type", v) && fa.eqStr(t.Args[1], "Namespace")
		}); t != nil {
			has = fa.eval(t)
		}
		var fn *Term
		typed := Unknown
		for _, e := range pt.Events {
			if e.Kind == "Call" && e.Name == "(reflect.Value).Interface" && isPure(e.Args[0], "(reflect.Value).Method", v, nil) && fieldNamed(e.Args[0].Args[1], nil, "Index") {
				if t := anyTerm(pt, func(t *Term) bool { return t.Op == OpAssertOK && t.Args[0] == e.Res }); t != nil {
					typed = fa.eval(t)
				}
				fn = e.Res
			}
		}
		if has == True && typed == True {
			good := false
			for _, e := range pt.Events {
				good = good || e.Kind == "Dyn" && plain(e.Args[0]).Op == OpAssert && plain(e.Args[0]).Args[0] == fn && e.Res == s
			}
			c.ob(good && fa.is(ok, true), "namespace", name+" (method)", f.Pos(), pt, "the namespace is not what the struct's method says")
			continue
		}
		if !c.ob(has == False || has == True && typed == False, "namespace", name+" (looked for)", f.Pos(), pt, "the struct's method is not looked for") {
			continue
		}
		// the field
		if fa.is(ok, false) {
			c.ob(fa.isEmpty(s), "namespace", name+" (none)", f.Pos(), pt, "a namespace is given that is none")
			continue
		}
		good := false
		for _, e := range pt.Events {
			if e.Kind == "Call" && e.Name == "(reflect.Value).String" && e.Res == s {
				x := e.Args[0]
				if isPure(x, "(reflect.Value).Field", nil, nil) {
					// the field itself, not what it is promoted from
					for a, val := range fa.b {
						good = good || val && a.Op == OpBin && a.Sym == "==" && a.any(func(t *Term) bool { return t.Op == OpLen && fieldNamed(t.Args[0], nil, "Index") })
					}
					good = good && x.any(func(t *Term) bool { return fieldNamed(t, nil, "Index") }) && x.Args[0].any(func(t *Term) bool { return t == v })
				}
				for _, g := range pt.Events {
					if g.Kind == "Call" && g.Res != nil && (g.Res == x || g.Res.Op == OpTuple && len(g.Res.Args) > 0 && g.Res.Args[0] == x) {
						by := len(g.Args) == 2 && (fieldNamed(g.Args[1], nil, "Index") || fa.eqStr(g.Args[1], "Namespace"))
						good = good || by && g.Args[0].any(func(t *Term) bool { return t == v })
					}
				}
			}
		}
		c.ob(good && fa.is(ok, true), "namespace", name+" (field)", f.Pos(), pt, "the namespace is not the value of the struct's field")
	}
}

func (c *Chk) structSettings(h *handlerStruct) {
	// setters
	may := map[*types.Var]map[*ssa.Function]bool{}
	allow := func(fv *types.Var, f *ssa.Function) {
		if may[fv] == nil {
			may[fv] = map[*ssa.Function]bool{}
		}
		may[fv][f] = true
	}
	for _, s := range []struct {
		name string
		fv   *types.Var
	}{{"SetNamespace", h.ns}, {"SetEventMatcher", h.matcher}, {"SetInjector", h.inj}} {
		f := c.p.method("Struct", s.name)
		if !c.ob(f != nil && len(f.Params) == 2, "anchor", "Struct."+s.name, token.NoPos, nil, "not found") {
			continue
		}
		allow(s.fv, f)
		for _, pt := range c.explore(f, "Struct."+s.name, c.base()) {
			if !complete(pt) {
				continue
			}
			v := c.fieldAt(pt, selfOf(f), s.fv, pt.Events[len(pt.Events)-1].Seq+1)
			c.ob(v == paramN(f, 1) && pt.Results[0] == selfOf(f), "settings", "Struct."+s.name, f.Pos(), pt, "what is given is not kept")
		}
	}
	// the value
	if f := c.p.fn("NewStruct"); c.ob(f != nil && len(f.Params) == 1, "anchor", "NewStruct", token.NoPos, nil, "not found") {
		allow(h.ptr, f)
		arg := paramN(f, 0)
		for _, pt := range c.explore(f, "NewStruct", c.structConfig(f)) {
			if !complete(pt) {
				continue
			}
			r := pt.Results[0]
			if r.Op == OpAssert && r.Args[0] == arg {
				c.ob(true, "settings", "NewStruct (same)", f.Pos(), pt, "")
				continue
			}
			v := c.memOf(pt, r, h.ptr.Name())
			c.ob(r.Op == OpAlloc && v != nil && (isPure(v, "reflect.ValueOf", arg) || v.Op == OpAssert && v.Args[0] == arg), "settings", "NewStruct (value)", f.Pos(), pt, "the struct does not keep the value it is given")
			if v != nil {
				typ := anyTerm(pt, pure("(reflect.Value).Type", v))
				c.ob(typ != nil && kindIs(pt, typ, kindPtr) == True, "settings", "NewStruct (pointer)", f.Pos(), pt, "a value that is no pointer is accepted")
			}
		}
	}
	if f := c.p.method("Struct", "GetNamespaces"); f != nil {
		allow(h.ns, f)
	}
	if f := c.p.method("Struct", "Events"); f != nil {
		allow(h.evs, f)
	}
	for _, fv := range []*types.Var{h.ptr, h.ns, h.matcher, h.inj, h.evs} {
		c.fieldUses(fv, func(f *ssa.Function, in ssa.Instruction, write bool) {
			if write {
				c.ob(may[fv][f] || c.calledOnlyBy(f, may[fv]), "settings", "Struct."+fv.Name()+" (written)", in.Pos(), nil, "%s changes it", rel(c, f))
			}
		})
	}
	c.fieldUses(h.value, func(f *ssa.Function, in ssa.Instruction, write bool) {
		if write {
			c.ob(h.wrappers[f] || c.calledOnlyBy(f, h.wrappers), "holds", "NSConn."+h.value.Name()+" (written)", in.Pos(), nil, "%s changes it", rel(c, f))
		}
	})
}

// calledOnlyBy: a helper of those functions.
func (c *Chk) calledOnlyBy(f *ssa.Function, by map[*ssa.Function]bool) bool {
	return c.calledOnly(f, by, map[*ssa.Function]bool{})
}

func (c *Chk) calledOnly(f *ssa.Function, by, seen map[*ssa.Function]bool) bool {
	if f.Object() != nil && f.Object().Exported() || seen[f] {
		return seen[f]
	}
	seen[f] = true
	n := 0
	for _, g := range c.p.Funcs {
		for _, x := range c.p.staticRefs(g) {
			if x != f {
				continue
			}
			n++
			if !by[g] && !c.calledOnly(g, by, seen) {
				return false
			}
		}
	}
	return n > 0
}

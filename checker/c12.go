package main

// C12: the wire format, written and read back.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C12"] = checkC12 }

const wireFields = 7

// noConv strips conversions between string and []byte.
func noConv(t *Term) *Term {
	for t != nil && t.Op == OpConv && len(t.Args) == 1 && (isString(t.Typ) || isBytes(t.Typ)) && (isString(t.Args[0].Typ) || isBytes(t.Args[0].Typ)) {
		t = t.Args[0]
	}
	return t
}

// segments cuts a byte sequence at its literal separators; the last segment takes the rest.
func segments(ps []part, sep string, n int) [][]part {
	var out [][]part
	var cur []part
	for _, p := range ps {
		if p.term != nil {
			cur = append(cur, p)
			continue
		}
		lit := p.lit
		for len(out) < n-1 {
			i := strings.Index(lit, sep)
			if i < 0 {
				break
			}
			if i > 0 {
				cur = append(cur, part{lit: lit[:i]})
			}
			out = append(out, cur)
			cur = nil
			lit = lit[i+len(sep):]
		}
		if lit != "" {
			cur = append(cur, part{lit: lit})
		}
	}
	return append(out, cur)
}

// replaced: t is x with every occurrence of one text replaced by another.
func replaced(t *Term) (x *Term, from, to string, ok bool) {
	t = noConv(t)
	if t != nil && t.Op == OpPure && (t.Sym == "strings.Replace" || t.Sym == "bytes.Replace") && len(t.Args) == 4 {
		n, isN := t.Args[3].IntVal()
		f, okF := textOf(t.Args[1])
		g, okG := textOf(t.Args[2])
		if isN && n < 0 && okF && okG {
			return noConv(t.Args[0]), f, g, true
		}
	}
	return nil, "", "", false
}

func textOf(t *Term) (string, bool) {
	ps := flatten(t)
	if len(ps) == 0 {
		return "", true
	}
	if len(ps) == 1 && ps[0].term == nil {
		return ps[0].lit, true
	}
	return "", false
}

// lacks: the path knows that the text has no occurrence of sub.
func lacks(pt *Path, x *Term, sub string) bool {
	f := pt.Facts
	if f.eqStr(x, "") || f.isEmpty(x) {
		return true
	}
	for _, pkg := range []string{"strings", "bytes"} {
		for _, s := range []*Term{TT.Str(sub), mkConv(TT.Str(sub), types.NewSlice(types.Typ[types.Byte]))} {
			if f.eval(TT.mk(OpPure, pkg+".Contains", types.Typ[types.Bool], x, s)) == False {
				return true
			}
			ix := TT.mk(OpPure, pkg+".Index", types.Typ[types.Int], x, s)
			if _, hi := f.rng(ix); hi < 0 {
				return true
			}
		}
	}
	return false
}

func (f *Facts) isEmpty(x *Term) bool {
	_, hi := f.rng(lenOf(x))
	if hi == 0 {
		return true
	}
	// through conversions
	if y := noConv(x); y != x {
		_, hi = f.rng(lenOf(y))
		return hi == 0 || (isString(y.Typ) && f.eqStr(y, ""))
	}
	if f.nilness(x) == True {
		return true
	}
	return false
}

// wireIndex: t is the n-th field cut from the payload.
func wireIndex(t, b *Term) int {
	t = noConv(t)
	if t == nil || (t.Op != OpIndex && !(t.Op == OpLoad && t.Args[0].Op == OpIAddr)) {
		return -1
	}
	base, ix := t.Args[0], t.Args[len(t.Args)-1]
	if t.Op == OpLoad {
		base, ix = t.Args[0].Args[0], t.Args[0].Args[1]
	}
	if !isSplit(base, b) {
		return -1
	}
	n, ok := ix.IntVal()
	if !ok {
		return -1
	}
	return int(n)
}

func isSplit(s, b *Term) bool {
	if s.Op != OpPure || (s.Sym != "bytes.SplitN" && s.Sym != "strings.SplitN") || noConv(s.Args[0]) != b {
		return false
	}
	sep, ok := textOf(s.Args[1])
	n, ok2 := s.Args[2].IntVal()
	return ok && ok2 && sep == ";" && n == wireFields
}

// marked is the text with the backend mark as its second character.
func markedParts(ps []part, tok *Term) bool {
	return len(ps) == 3 && ps[0].term != nil && ps[2].term != nil && ps[1].term == nil && ps[1].lit == "!" &&
		isHead(ps[0].term, tok) && isTail(ps[2].term, tok, 1)
}

func isHead(t, tok *Term) bool {
	if t.Op == OpSlice && noConv(t.Args[0]) == tok {
		lo, okLo := t.Args[1].IntVal()
		hi, okHi := t.Args[2].IntVal()
		return (t.Args[1].IsNil() || (okLo && lo == 0)) && okHi && hi == 1
	}
	if t.Op == OpIndex && noConv(t.Args[0]) == tok {
		n, ok := t.Args[1].IntVal()
		return ok && n == 0
	}
	return false
}

func isTail(t, tok *Term, from int64) bool {
	if t.Op != OpSlice || noConv(t.Args[0]) != tok || !t.Args[2].IsNil() {
		return false
	}
	lo, ok := t.Args[1].IntVal()
	return ok && lo == from
}

// markRules: the token's backend mark survives the wire.
func (c *Chk) markRules() {
	c.rule("mark", "a reply token of a question that came through the backend carries the mark '!' as its second character on the wire exactly when the message says so, and the decoder takes the same mark off and says so again")
	c.encodeRules(true)
	c.decodeRules(true)
}

// encodeRules looks at every way through the encoder.
func (c *Chk) encodeRules(markOnly bool) (repl string) {
	enc := c.p.method("Message", "Serialize")
	if enc == nil {
		c.ob(false, "anchor", "Message.Serialize", token.NoPos, nil, "not found")
		return
	}
	r := c.r
	msg := TT.mk(OpParam, enc.Params[0].Name(), enc.Params[0].Type())
	if !c.isMsg(enc.Params[0].Type()) {
		c.ob(false, "anchor", "Message.Serialize", enc.Pos(), nil, "the receiver is not a message value")
		return
	}
	wait, fromEx := mf(msg, r.mWait), mf(msg, r.mFromEx)
	for _, pt := range c.explore(enc, "root:Serialize", c.except("Encode")) {
		f := pt.Facts
		native := f.is(mf(msg, r.mNative), true)
		if pt.Outcome == "panic" {
			if !markOnly {
				c.ob(f.neStr(fromEx, "") && f.neStr(wait, ""), "encode", "refusal", enc.Pos(), pt, "encoding may panic for a message without both a token and an excluded sender")
			}
			continue
		}
		if !complete(pt) {
			continue
		}
		ps := flatten(pt.Results[0])
		raw := len(ps) == 1 && ps[0].term == mf(msg, r.mBody)
		if raw {
			if !markOnly {
				c.ob(native && f.eqStr(wait, ""), "encode", "native", enc.Pos(), pt, "the bare body is sent for a message that is not native or has a token")
			}
			continue
		}
		if !markOnly {
			c.ob(f.is(mf(msg, r.mNative), false) || f.neStr(wait, ""), "encode", "framed", enc.Pos(), pt, "a native message is framed: %s", showParts(ps))
		}
		seg := segments(ps, ";", wireFields)
		if len(seg) != wireFields {
			c.ob(false, "encode", "field count", enc.Pos(), pt, "%d fields: %s", len(seg), showParts(ps))
			continue
		}
		// 0: the token
		se := f.eval(mf(msg, r.mFromSE))
		t0 := seg[0]
		switch {
		case len(t0) == 1 && t0[0].term == wait || len(t0) == 0 && f.eqStr(wait, ""):
			ok := f.eqStr(wait, "") || se == False
			c.ob(ok, "mark", "encoder (plain)", enc.Pos(), pt, "the token of a question from the backend goes out unmarked")
			if !markOnly {
				c.ob(f.eqStr(fromEx, ""), "encode", "excluded sender", enc.Pos(), pt, "the excluded sender is not sent: %s", showParts(t0))
			}
		case markedParts(t0, wait):
			c.ob(se == True && f.neStr(wait, ""), "mark", "encoder (marked)", enc.Pos(), pt, "a token is marked without the message coming from the backend")
			if !markOnly {
				c.ob(f.eqStr(fromEx, ""), "encode", "excluded sender", enc.Pos(), pt, "the excluded sender is not sent: %s", showParts(t0))
			}
		case len(t0) == 0 && f.neStr(wait, ""):
			_, hi := f.rng(lenOf(wait))
			c.ob(hi < 2, "mark", "encoder (dropped)", enc.Pos(), pt, "a token is dropped")
		case len(t0) == 1 && t0[0].term == fromEx:
			if !markOnly {
				_, hi := f.rng(lenOf(wait))
				c.ob(f.eqStr(wait, "") || hi < 2, "encode", "excluded sender", enc.Pos(), pt, "the excluded sender replaces the token")
			}
		default:
			c.ob(false, "mark", "encoder (token)", enc.Pos(), pt, "the first field is %s", showParts(t0))
		}
		if markOnly {
			continue
		}
		// 1-3: names
		for i, fv := range []*types.Var{r.mNS, r.mRoom, r.mEvent} {
			v := mf(msg, fv)
			s := seg[i+1]
			ok := false
			switch {
			case len(s) == 0:
				ok = f.eqStr(v, "")
			case len(s) == 1 && s[0].term == v:
				ok = lacks(pt, v, ";")
			case len(s) == 1 && s[0].term != nil:
				x, from, to, isR := replaced(s[0].term)
				ok = isR && x == v && from == ";" && !strings.Contains(to, ";") && to != "" && (repl == "" || repl == to)
				if ok {
					repl = to
				}
			}
			c.ob(ok, "encode", fv.Name(), enc.Pos(), pt, "the %s goes out as %s", fv.Name(), showParts(s))
		}
		// 4, 6: error or body
		err := mf(msg, r.mErr)
		body := seg[6]
		one := func(s []part, lit string) bool { return len(s) == 1 && s[0].term == nil && s[0].lit == lit }
		isTerm := func(s []part, t *Term) bool { return len(s) == 1 && s[0].term == t }
		switch {
		case one(seg[4], "1"):
			want := TT.mk(OpPure, "error.Error", types.Typ[types.String], err)
			c.ob(f.isNonNil(err) && isTerm(body, want), "encode", "error text", enc.Pos(), pt, "the error flag is set and the last field is %s", showParts(body))
			c.ob(c.notReply(pt, err), "encode", "reply", enc.Pos(), pt, "a reply goes out as an error")
		case one(seg[4], "0"):
			if f.isNil(err) {
				c.ob(isTerm(body, mf(msg, r.mBody)) || (len(body) == 0 && f.isEmpty(mf(msg, r.mBody))), "encode", "body", enc.Pos(), pt, "the last field is %s", showParts(body))
			} else {
				ok := len(body) == 1 && body[0].term != nil && body[0].term.Op == OpField && body[0].term.Args[0].Op == OpAssert && body[0].term.Args[0].Args[0] == err && f.isNonNil(err) && isBytes(body[0].term.Typ)
				c.ob(ok, "encode", "reply body", enc.Pos(), pt, "an error goes out without its flag: %s", showParts(body))
			}
		default:
			c.ob(false, "encode", "error flag", enc.Pos(), pt, "the error flag is %s", showParts(seg[4]))
		}
		noOp := f.eval(mf(msg, r.mNoOp))
		c.ob(noOp == True && one(seg[5], "1") || noOp == False && one(seg[5], "0"), "encode", "no-op flag", enc.Pos(), pt, "the no-op flag is %s", showParts(seg[5]))
	}
	return repl
}

// notReply: the error was found not to be a reply.
func (c *Chk) notReply(pt *Path, err *Term) bool {
	for a, v := range pt.Facts.b {
		if a.Op == OpAssertOK && a.Args[0] == err && !v {
			if n := namedOf(a.CTyp); n != nil && c.p.isRepoPkg(n.Obj().Pkg()) {
				return true
			}
		}
	}
	return false
}

// decodeRules looks at every way through the decoder.
func (c *Chk) decodeRules(markOnly bool) (repl string) {
	dec, _ := c.p.Root.Members["DeserializeMessage"].(*ssa.Function)
	if dec == nil || len(dec.Params) != 4 {
		c.ob(false, "anchor", "DeserializeMessage", token.NoPos, nil, "not found")
		return
	}
	r := c.r
	par := func(i int) *Term { return TT.mk(OpParam, dec.Params[i].Name(), dec.Params[i].Type()) }
	typ, b, allow, only := par(0), par(1), par(2), par(3)
	binary := c.constInt("BinaryMessage")
	for _, pt := range c.explore(dec, "root:Deserialize", c.except("Decode")) {
		if !complete(pt) {
			continue
		}
		f := pt.Facts
		m := pt.Results[0]
		field := func(fv *types.Var) *Term { return mf(m, fv) }
		tri3 := func(fv *types.Var) Tri { return f.eval(field(fv)) }
		wn, cutKnown := Unknown, false
		var split *Term
		for a := range f.b {
			a.any(func(t *Term) bool {
				if isSplit(t, b) {
					split = t
				}
				return false
			})
		}
		for _, t := range []*Term{field(r.mNS), field(r.mEvent), field(r.mBody)} {
			t.any(func(u *Term) bool {
				if isSplit(u, b) {
					split = u
				}
				return false
			})
		}
		for t := range f.lo {
			if t.Op == OpLen && isSplit(t.Args[0], b) {
				split = t.Args[0]
			}
		}
		for t := range f.hi {
			if t.Op == OpLen && isSplit(t.Args[0], b) {
				split = t.Args[0]
			}
		}
		for t := range f.ne {
			if t.Op == OpLen && isSplit(t.Args[0], b) {
				split = t.Args[0]
			}
		}
		for t := range f.eq {
			if t.Op == OpLen && isSplit(t.Args[0], b) {
				split = t.Args[0]
			}
		}
		if split != nil {
			wn = f.eqv(lenOf(split), TT.Int(wireFields))
			cutKnown = wn != Unknown
		}
		empty := f.isEmpty(b)
		// what never comes from the wire
		if !markOnly {
			for _, fv := range []*types.Var{r.mFrom, r.mTo} {
				c.ob(f.eqStr(field(fv), ""), "decode", fv.Name(), dec.Pos(), pt, "%s is set to %s", fv.Name(), field(fv))
			}
			for _, fv := range []*types.Var{r.mForced, r.mLocal} {
				c.ob(tri3(fv) == False, "decode", fv.Name(), dec.Pos(), pt, "%s is %s", fv.Name(), field(fv))
			}
			sb := field(r.mBinary)
			want := TT.mk(OpBin, "==", types.Typ[types.Bool], typ, binary)
			c.ob(sb == want || f.eval(sb) != Unknown && f.eval(sb) == f.eqv(typ, binary), "decode", "frame type", dec.Pos(), pt, "SetBinary is %s", sb)
			ie := field(r.mIsError)
			symbolic := ie.Op == OpBin && ie.Sym == "!=" && ie.Args[0] == field(r.mErr) && ie.Args[1].IsNil()
			c.ob(symbolic || f.eval(ie) != Unknown && f.eval(ie) == f.nilness(field(r.mErr)).not(), "decode", "isError", dec.Pos(), pt, "isError is %s and Err is %s", ie, field(r.mErr))
			if nat := tri3(r.mNative); nat != False {
				tok := f.eqStr(field(r.mWait), "")
				_ = tok
				c.ob(f.is(allow, true) || f.is(field(r.mNative), false), "decode", "native mark", dec.Pos(), pt, "a message may be marked native where native messages are not allowed")
			}
		}
		rawWhole := field(r.mBody) == b && c.isEv(pt, field(r.mEvent), "OnNativeMessage") && f.is(field(r.mInvalid), false)
		switch {
		case empty:
			if !markOnly {
				c.ob(tri3(r.mInvalid) == True, "decode", "empty payload", dec.Pos(), pt, "an empty payload is not marked invalid")
			}
			continue
		case f.is(only, true):
			if !markOnly {
				ok := rawWhole && split == nil && f.eqStr(field(r.mWait), "") && f.eqStr(field(r.mNS), "") && f.eqStr(field(r.mRoom), "") && f.is(field(r.mNoOp), false) && f.isNil(field(r.mErr)) && f.eqStr(field(r.mFromEx), "")
				c.ob(ok, "decode", "native only", dec.Pos(), pt, "on a native-only connection the payload becomes %s", m)
			}
			continue
		case cutKnown && wn == False:
			if !markOnly {
				switch f.eval(allow) {
				case True:
					ok := rawWhole && f.eqStr(field(r.mWait), "") && f.eqStr(field(r.mNS), "") && f.eqStr(field(r.mRoom), "") && f.is(field(r.mNoOp), false) && f.isNil(field(r.mErr)) && f.eqStr(field(r.mFromEx), "")
					c.ob(ok && tri3(r.mNative) == True, "decode", "too few fields (native)", dec.Pos(), pt, "a payload of too few fields becomes %s", m)
				case False:
					c.ob(tri3(r.mInvalid) == True, "decode", "too few fields", dec.Pos(), pt, "a payload of too few fields is not marked invalid")
				default:
					c.ob(tri3(r.mInvalid) == True, "decode", "too few fields", dec.Pos(), pt, "whether native messages are allowed is not looked at")
				}
			}
			continue
		case !cutKnown:
			c.ob(false, "decode", "field count", dec.Pos(), pt, "a payload is taken apart without counting its fields")
			continue
		}
		if !markOnly {
			c.ob(f.is(only, false) && !empty, "decode", "native only (looked at)", dec.Pos(), pt, "a payload is taken apart without looking whether only native messages are handled")
			c.ob(tri3(r.mInvalid) == False, "decode", "complete payload", dec.Pos(), pt, "a payload with all fields is marked invalid")
		}
		// the fields, by their position
		byIdx := map[int]*Term{}
		note := func(t *Term) {
			t.any(func(u *Term) bool {
				if i := wireIndex(u, b); i >= 0 {
					byIdx[i] = noConv(u)
				}
				return false
			})
		}
		w := func(i int) *Term {
			if t := byIdx[i]; t != nil {
				return t
			}
			return nil
		}
		for _, fv := range []*types.Var{r.mWait, r.mNS, r.mRoom, r.mEvent, r.mBody, r.mErr, r.mNoOp, r.mFromEx, r.mFromSE} {
			note(field(fv))
		}
		for a := range f.b {
			note(a)
		}
		for a := range f.lo {
			note(a)
		}
		for a := range f.hi {
			note(a)
		}
		for a := range f.eq {
			note(a)
		}
		for a := range f.ne {
			note(a)
		}
		is := func(t *Term, i int) bool { return wireIndex(t, b) == i }
		// 0: token, backend mark, excluded sender
		strT := types.Typ[types.String]
		var tok *Term
		if w(0) != nil {
			tok = mkConv(w(0), strT)
			if isString(w(0).Typ) {
				tok = w(0)
			}
		}
		wait, fromEx := field(r.mWait), field(r.mFromEx)
		hasID := Unknown
		idPrefix := ""
		if tok != nil {
			for a, v := range f.b {
				if a.Op == OpPure && (a.Sym == "strings.HasPrefix" || a.Sym == "bytes.HasPrefix") && is(a.Args[0], 0) {
					if s, ok := textOf(a.Args[1]); ok {
						hasID, idPrefix = tri(v), s
					}
				}
			}
		}
		switch {
		case tok == nil:
			c.ob(false, "decode", "token", dec.Pos(), pt, "the first field is not read")
			continue
		case !f.eqStr(fromEx, ""):
			if !markOnly {
				c.ob(is(fromEx, 0) && f.eqStr(wait, "") && hasID == True && tri3(r.mFromSE) == False, "decode", "excluded sender", dec.Pos(), pt, "excluded sender %s, token %s", fromEx, wait)
				c.ob(idPrefix != "" && !strings.ContainsAny(idPrefix[:1], "$#0123456789"), "decode", "excluded sender (kind)", dec.Pos(), pt, "a token of this protocol may be taken for an excluded sender: %q", idPrefix)
				c.ob(c.idPrefixed(idPrefix), "decode", "excluded sender (identity)", dec.Pos(), pt, "connection identities do not start with %q", idPrefix)
			}
		default:
			if !markOnly {
				c.ob(hasID == False || f.isEmpty(tok), "decode", "excluded sender", dec.Pos(), pt, "an excluded sender stays in the token")
			}
			second := TT.mk(OpIndex, "", types.Typ[types.Byte], tok, TT.Int(1))
			lo, hi := f.rng(mkLen(tok))
			mark := f.eqv(second, TT.Int('!'))
			for a, v := range f.b {
				if a.Op == OpBin && a.Sym == "==" && (a.Args[0].Op == OpIndex || a.Args[0].Op == OpSlice) && noConv(a.Args[0].Args[0]) == w(0) {
					if n, ok := a.Args[0].Args[1].IntVal(); ok && n == 1 {
						if ch, ok := a.Args[1].IntVal(); ok && ch == '!' {
							mark = tri(v)
						}
					}
				}
			}
			ps := flatten(wait)
			switch {
			case is(wait, 0) || len(ps) == 0 && f.isEmpty(tok):
				c.ob(tri3(r.mFromSE) == False && (mark == False || hi <= 2), "mark", "decoder (plain)", dec.Pos(), pt, "a marked token is taken as it is (mark %v, len<=%d, from backend %s)", mark, hi, field(r.mFromSE))
			case len(ps) == 2 && ps[0].term != nil && ps[1].term != nil && isHead(ps[0].term, w(0)) && isTail(ps[1].term, w(0), 2):
				c.ob(tri3(r.mFromSE) == True && mark == True && lo > 2, "mark", "decoder (marked)", dec.Pos(), pt, "the mark is taken off %s (mark %v, len>=%d, from backend %s)", wait, mark, lo, field(r.mFromSE))
			default:
				c.ob(false, "mark", "decoder (token)", dec.Pos(), pt, "the token becomes %s", wait)
			}
		}
		if markOnly {
			continue
		}
		for i, fv := range []*types.Var{r.mNS, r.mRoom, r.mEvent} {
			v := field(fv)
			ok := false
			switch {
			case f.eqStr(v, ""):
				ok = w(i+1) != nil && f.isEmpty(mkConv(w(i+1), strT))
			case is(v, i+1):
				ok = f.isEmpty(v) || f.isEmpty(w(i+1))
				if !ok && repl != "" {
					ok = lacks(pt, v, repl)
				}
			default:
				x, from, to, isR := replaced(v)
				ok = isR && is(x, i+1) && to == ";" && from != "" && (repl == "" || repl == from)
				if ok {
					repl = from
				}
			}
			c.ob(ok, "decode", fv.Name(), dec.Pos(), pt, "the %s is read as %s", fv.Name(), v)
		}
		one := []*Term{TT.Str("1")}
		flag := func(i int) Tri { // field i holds exactly "1"
			for a, v := range f.b {
				if flagAtom(a, b, i) {
					return tri(v)
				}
			}
			if w(i) != nil {
				return f.eqv(mkConv(w(i), strT), one[0])
			}
			return Unknown
		}
		nf := field(r.mNoOp)
		c.ob(flagAtom(nf, b, 5) || f.eval(nf) != Unknown && f.eval(nf) == flag(5), "decode", "no-op flag", dec.Pos(), pt, "the no-op flag is read as %s", nf)
		err := field(r.mErr)
		switch flag(4) {
		case True:
			ok, why := c.decodedError(pt, err, b)
			c.ob(ok, "decode", "error text", dec.Pos(), pt, "the error is read as %s: %s", err, why)
			c.ob(f.isEmpty(field(r.mBody)) || is(field(r.mBody), 6), "decode", "body", dec.Pos(), pt, "the body of an error is %s", field(r.mBody))
		case False:
			c.ob(f.isNil(err), "decode", "error text", dec.Pos(), pt, "an error appears without its flag: %s", err)
			body := field(r.mBody)
			c.ob(is(body, 6) || (f.isEmpty(body) && w(6) != nil && f.isEmpty(w(6))), "decode", "body", dec.Pos(), pt, "the body is read as %s", body)
		default:
			c.ob(false, "decode", "error flag", dec.Pos(), pt, "the error flag is not looked at")
		}
	}
	return repl
}

// flagAtom: the term says that field i of the payload is exactly "1".
func flagAtom(a, b *Term, i int) bool {
	if a == nil {
		return false
	}
	if a.Op == OpPure && a.Sym == "bytes.Equal" || a.Op == OpBin && a.Sym == "==" {
		for k := 0; k < 2; k++ {
			if s, ok := textOf(a.Args[1-k]); ok && s == "1" && wireIndex(a.Args[k], b) == i {
				return true
			}
		}
	}
	return false
}

// decodedError: a registered error that recognises the text, or a new error with that text if none does.
func (c *Chk) decodedError(pt *Path, err, b *Term) (bool, string) {
	f := pt.Facts
	known := func(t *Term) bool {
		return t.Op != OpPure && t.any(func(u *Term) bool {
			return u.Op == OpLoad && u.Args[0].Op == OpGlobal && u.Typ != nil && types.TypeString(u.Typ, nil) == "[]error"
		}) && t.Typ != nil && types.Identical(t.Typ, errType)
	}
	says := func(t *Term) Tri { // the known error recognises the text
		r := Unknown
		for a, v := range f.b {
			if a.Op == OpBin && a.Sym == "==" {
				for k := 0; k < 2; k++ {
					x, y := a.Args[k], a.Args[1-k]
					if x.Op == OpPure && x.Sym == "error.Error" && x.Args[0] == t && wireIndex(y, b) == 6 {
						if v {
							return True
						}
						r = False
					}
				}
			}
		}
		for _, e := range pt.Events {
			if e.Kind == "Invoke" && strings.HasSuffix(e.Name, ".ResolveError") && len(e.Args) == 2 && e.Args[0].any(func(u *Term) bool { return u == t }) && wireIndex(e.Args[1], b) == 6 {
				if f.is(e.Res, true) {
					return True
				}
			}
		}
		return r
	}
	if err.Op == OpPure && (err.Sym == "errors.New" || err.Sym == "fmt.Errorf") {
		if err.Sym != "errors.New" || wireIndex(err.Args[0], b) != 6 {
			return false, "its text is not the last field"
		}
		elems := map[*Term]bool{}
		for a := range f.b {
			a.any(func(u *Term) bool {
				if known(u) {
					elems[u] = true
				}
				return false
			})
		}
		for _, e := range pt.Events {
			for _, a := range e.Args {
				a.any(func(u *Term) bool {
					if known(u) {
						elems[u] = true
					}
					return false
				})
			}
			if e.Kind == "EarlyExit" {
				return false, "not all registered errors are asked"
			}
		}
		for t := range elems {
			if says(t) != False {
				return false, "a registered error may recognise the text"
			}
			// one that decides by itself is asked too
			asked := false
			for a, v := range f.b {
				asked = asked || !v && a.Op == OpAssertOK && a.Args[0] == t
			}
			for _, e := range pt.Events {
				asked = asked || e.Kind == "Invoke" && strings.HasSuffix(e.Name, ".ResolveError") && e.Args[0].any(func(u *Term) bool { return u == t }) && f.is(e.Res, false)
			}
			if !asked {
				return false, "a registered error that recognises texts itself (ResolveError) is not asked"
			}
		}
		return true, ""
	}
	if known(err) {
		if says(err) == True {
			return true, ""
		}
		return false, "the registered error was not found to recognise the text"
	}
	return false, "it is neither a registered error nor a new one"
}

// idPrefixed: the identities given to connections start with the prefix.
func (c *Chk) idPrefixed(prefix string) bool {
	n, ok := 0, true
	for _, f := range c.p.Funcs {
		if fnPkg(f) != c.p.Root || isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, isSt := in.(*ssa.Store)
				if !isSt {
					continue
				}
				fa, isFa := st.Addr.(*ssa.FieldAddr)
				if !isFa || fieldVarOf(fa) != c.r.connSID {
					continue
				}
				n++
				ok = ok && c.startsWith(st.Val, prefix, 0)
			}
		}
	}
	return ok && n > 0
}

// startsWith: the string value is built from a literal with the prefix.
func (c *Chk) startsWith(v ssa.Value, prefix string, d int) bool {
	if d > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && isString(v.Type()) {
			s, _ := TT.Const(v.Value, v.Type()).StrVal()
			return strings.HasPrefix(s, prefix) && !strings.Contains(strings.TrimPrefix(s, prefix)[:0], "%")
		}
	case *ssa.BinOp:
		if v.Op == token.ADD {
			return c.startsWith(v.X, prefix, d+1)
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !c.startsWith(e, prefix, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		g := v.Call.StaticCallee()
		if g == nil {
			return false
		}
		if g.String() == "fmt.Sprintf" {
			return c.startsWith(v.Call.Args[0], prefix, d+1)
		}
		if c.p.isRepo(g) {
			n := 0
			for _, b := range g.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
					n++
					if !c.startsWith(rt.Results[0], prefix, d+1) {
						return false
					}
				}
			}
			return n > 0
		}
	}
	return false
}

func (c *Chk) constInt(name string) *Term {
	if k, ok := c.p.Root.Members[name].(*ssa.NamedConst); ok {
		return TT.Const(k.Value.Value, k.Type())
	}
	if g, ok := c.p.Root.Members[name].(*ssa.Global); ok {
		if t, ok := c.p.globals[g]; ok {
			return t
		}
	}
	c.ob(false, "anchor", name, token.NoPos, nil, "%s is not a constant", name)
	return TT.Int(-1)
}

func checkC12(c *Chk) {
	c.rule("encode", "the encoder writes exactly seven fields: token (or excluded sender), namespace, room and event with every separator replaced, error flag, no-op flag, and the body, the reply's body, or the error's text; the bare body exactly for a native message without token")
	c.rule("decode", "the decoder cuts the same seven fields, reads each into the field the encoder wrote it from, reverses the replacement in namespace, room and event only, yields a registered error that recognises the text or a new error with it, and marks invalid or delivers whole what has too few fields; nothing else is taken from the wire")
	c.rule("mark", "the backend mark is put as second character into the token on encoding and taken off again on decoding, exactly for messages from a backend")
	c.rule("escape", "what replaces the separator on encoding is what is turned back into it on decoding")
	c.rule("empty", "every raw answer (the empty acknowledgement) consists of the token and as many separators as a full message has")
	enc := c.encodeRules(false)
	dec := c.decodeRules(false)
	c.ob(enc != "" && enc == dec, "escape", "replacement", token.NoPos, nil, "%q on encoding, %q on decoding", enc, dec)
	h := c.p.method("Conn", "HandlePayload")
	if h != nil {
		for _, pt := range c.explore(h, "root:HandlePayload", c.rootConfig(h)) {
			for _, e := range pt.Events {
				if !isWire(e) {
					continue
				}
				ps := flatten(e.Args[1])
				if len(ps) == 1 && ps[0].term != nil && ps[0].term.Op == OpPure && ps[0].term.Sym == "Encode" {
					continue
				}
				seg := segments(ps, ";", 99)
				ok := len(seg) == wireFields && len(seg[0]) == 1 && seg[0][0].term != nil
				for i := 1; ok && i < len(seg); i++ {
					ok = len(seg[i]) == 0
				}
				c.ob(ok, "empty", c.fnName(e), e.Pos, pt, "the raw answer is %s", showParts(ps))
			}
		}
	}
	c.need("encode", 12)
	c.need("decode", 16)
	c.need("mark", 4)
	c.need("empty", 1)
}

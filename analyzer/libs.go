package main

import (
	"go/types"
	"sort"
)

// Models of the libraries behind package bls (kilic, herumi, uint256, math/big), in terms of the
// field and group operations. A kilic Fr is a field element in Montgomery ("red") form; "plain" is
// its ordinary form, which the group operations need.

func plainFr(x *Term) *Term {
	if x.op == "redof" {
		return x.args[0]
	}
	return mk("plainfr", "", x)
}

func redFr(x *Term) *Term {
	if x.op == "plainfr" {
		return x.args[0]
	}
	return mk("redof", "", x)
}

// scalarOf is the field element a point is multiplied by.
func scalarOf(x *Term) *Term {
	if x.op == "plainfr" {
		return x.args[0]
	}
	return mk("unconverted", "", x)
}

func eachElem(s *Term, f func(*Term) *Term) *Term {
	n := mkLen(s)
	x := freshRng("e", n)
	return closeBinder("seq", "", n, []*Term{x}, []*Term{f(mkSel(s, x))})
}

func scalarsOf(s *Term) *Term {
	if s.op == "seq" {
		n := s.args[0]
		x := freshRng("e", n)
		return closeBinder("seq", "", n, []*Term{x}, []*Term{scalarOf(mkSel(s, x))})
	}
	return mk("unconverted", "", s)
}

// pointees is the list of values that the pointers in a slice argument point to.
func (c *Call) pointees(i int) *Term {
	v := c.val(i)
	st, ok := c.ts[i].Underlying().(*types.Slice)
	if !ok {
		return v
	}
	pt, ok := st.Elem().Underlying().(*types.Pointer)
	if !ok {
		return v
	}
	n := mkLen(v)
	x := freshRng("e", n)
	p := mkSel(v, x)
	if p.op != "sel" {
		p = c.it.read(p, pt.Elem())
	}
	return closeBinder("seq", "", n, []*Term{x}, []*Term{p})
}

// reduceMod is the field element a reduced integer stands for.
func reduceMod(x, m *Term) *Term {
	if m != tModulus {
		return mk("bigmod", "", x, m)
	}
	switch x.op {
	case "bigadd":
		return mk("addfr", "", x.args...)
	case "bigsub":
		return mk("addfr", "", x.args[0], mk("negfr", "", x.args[1]))
	case "bigmul":
		return mk("mulfr", "", x.args...)
	}
	return mk("bigmod", "", x, m)
}

// tModulus is the value of the package variable holding the modulus.
var tModulus = mkSym("g:bls._modulus")

func pairTerm(a, b *Term) *Term {
	if b.op == "negg2" {
		a, b = mk("negg1", "", a), b.args[0]
	}
	return mk("pair", "", a, b)
}

func pairInv(p *Term) *Term { return mk("pair", "", mk("negg1", "", p.args[0]), p.args[1]) }

// pairProduct is a product of pairings, in a canonical order.
func pairProduct(ps ...*Term) *Term {
	var fl []*Term
	for _, p := range ps {
		if p.op == "pairs" {
			fl = append(fl, p.args...)
		} else {
			fl = append(fl, p)
		}
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].id < fl[j].id })
	return raw("pairs", "", 0, fl, nil)
}

// pairCheck: the product is one (a product and its inverse are judged alike).
func pairCheck(ps *Term) *Term {
	if ps.op != "pairs" {
		return mkAtom(raw("check", "gtone", 0, []*Term{ps}, nil))
	}
	var inv []*Term
	for _, p := range ps.args {
		inv = append(inv, pairInv(p))
	}
	q := pairProduct(inv...)
	if q.id < ps.id {
		ps = q
	}
	return mkAtom(raw("check", "pairs", 0, []*Term{ps}, nil))
}

func init() {
	m := intrinsics
	recvT := func(c *Call) types.Type {
		t := c.fn.Type().(*types.Signature).Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		return t
	}
	rv := func(c *Call) *Term {
		if _, ok := c.fn.Type().(*types.Signature).Recv().Type().(*types.Pointer); ok {
			return c.it.read(c.recv, recvT(c))
		}
		return c.recv
	}
	vals := func(c *Call) []*Term {
		var as []*Term
		for i := range c.args {
			as = append(as, c.val(i))
		}
		return as
	}
	results := func(c *Call, errs *Term) []*Term {
		var out []*Term
		rs := c.fn.Type().(*types.Signature).Results()
		for i := 0; i < rs.Len(); i++ {
			switch {
			case isErr(rs.At(i).Type()):
				out = append(out, errs)
			case isPtr(rs.At(i).Type()):
				out = append(out, c.recv)
			default:
				out = append(out, typed(c.fresh("nd", mkInt(int64(i))), rs.At(i).Type()))
			}
		}
		return out
	}
	// recv.op(args): recv = f(recv, args)
	set := func(f func(v *Term, a []*Term) *Term) intrin {
		return func(c *Call) ([]*Term, bool) {
			v := f(rv(c), vals(c))
			c.it.write(c.recv, v, recvT(c), c.pos)
			return results(c, tNil), true
		}
	}
	get := func(f func(v *Term, a []*Term) *Term) intrin {
		return func(c *Call) ([]*Term, bool) {
			return one(typed(f(rv(c), vals(c)), c.fn.Type().(*types.Signature).Results().At(0).Type())), true
		}
	}
	is := func(f func(v *Term, a []*Term) *Term) intrin {
		return func(c *Call) ([]*Term, bool) { return one(asBool(f(rv(c), vals(c)))), true }
	}
	neg := func(x *Term) *Term { return mk("negfr", "", x) }

	// --- kilic: field elements
	fr := "bls12381.Fr."
	fromBytes := func(b *Term) *Term {
		switch {
		case b.op == "u64be":
			return mk("asfr", "", b.args[0])
		case b.op == "bigbytes" && b.args[0].op == "bigdec":
			return mk("setfr", "", b.args[0].args[0])
		}
		return mk("frofbe", "", b)
	}
	m[fr+"RedFromBytes"] = set(func(_ *Term, a []*Term) *Term { return fromBytes(a[0]) })
	m[fr+"FromBytes"] = set(func(_ *Term, a []*Term) *Term { return plainFr(fromBytes(a[0])) })
	m[fr+"RedToBytes"] = get(func(v *Term, _ []*Term) *Term { return mk("frbe", "", v) })
	m[fr+"ToBytes"] = get(func(v *Term, _ []*Term) *Term { return mk("frbe", "", scalarOf(v)) })
	m[fr+"RedToBig"] = func(c *Call) ([]*Term, bool) { return one(c.newPtr(mk("bigfr", "", rv(c)), c.resT(0))), true }
	m[fr+"ToBig"] = func(c *Call) ([]*Term, bool) {
		return one(c.newPtr(mk("bigfr", "", scalarOf(rv(c))), c.resT(0))), true
	}
	m[fr+"IsRedOne"] = is(func(v *Term, _ []*Term) *Term { return mkEq(v, tFr1) })
	m[fr+"IsOne"] = is(func(v *Term, _ []*Term) *Term { return mkEq(v, plainFr(tFr1)) })
	m[fr+"IsZero"] = is(func(v *Term, _ []*Term) *Term { return mkEq(v, tFr0) })
	m[fr+"Equal"] = is(func(v *Term, a []*Term) *Term { return mkEq(v, a[0]) })
	m[fr+"Set"] = set(func(_ *Term, a []*Term) *Term { return a[0] })
	m[fr+"Zero"] = set(func(_ *Term, a []*Term) *Term { return tFr0 })
	m[fr+"RedOne"] = set(func(_ *Term, a []*Term) *Term { return tFr1 })
	m[fr+"One"] = set(func(_ *Term, a []*Term) *Term { return plainFr(tFr1) })
	m[fr+"FromRed"] = set(func(v *Term, _ []*Term) *Term { return plainFr(v) })
	m[fr+"ToRed"] = set(func(v *Term, _ []*Term) *Term { return redFr(v) })
	m[fr+"Add"] = set(func(_ *Term, a []*Term) *Term { return mk("addfr", "", a[0], a[1]) })
	m[fr+"Double"] = set(func(_ *Term, a []*Term) *Term { return mk("addfr", "", a[0], a[0]) })
	m[fr+"Sub"] = set(func(_ *Term, a []*Term) *Term { return mk("addfr", "", a[0], neg(a[1])) })
	m[fr+"Neg"] = set(func(_ *Term, a []*Term) *Term { return neg(a[0]) })
	m[fr+"RedMul"] = set(func(_ *Term, a []*Term) *Term { return mk("mulfr", "", a[0], a[1]) })
	m[fr+"RedSquare"] = set(func(_ *Term, a []*Term) *Term { return mk("mulfr", "", a[0], a[0]) })
	m[fr+"RedInverse"] = set(func(_ *Term, a []*Term) *Term { return mk("invfr", "", a[0]) })
	m[fr+"RedExp"] = set(func(_ *Term, a []*Term) *Term { return mk("expfr", "", a[0], a[1]) })
	for _, n := range []string{"Mul", "Square", "Inverse", "Exp"} {
		n := n
		m[fr+n] = set(func(_ *Term, a []*Term) *Term { return mk("frplain"+n, "", a...) })
	}
	m[fr+"Rand"] = func(c *Call) ([]*Term, bool) {
		v := c.fresh("frrand", c.args[0])
		c.it.write(c.recv, plainFr(v), recvT(c), c.pos)
		return []*Term{c.recv, mk("randerr", "", v)}, true
	}
	m["bls12381.NewFr"] = func(c *Call) ([]*Term, bool) { return one(c.newPtr(tFr0, c.resT(0))), true }
	m["bls12381.RedInverseBatchFr"] = func(c *Call) ([]*Term, bool) {
		c.writeAll(c.args[0], eachElem(c.val(0), func(x *Term) *Term { return mk("invfr", "", x) }), c.ts[0].Underlying().(*types.Slice).Elem())
		return nil, true
	}
	// --- kilic: groups
	for _, g := range []struct{ n, s string }{{"G1", "g1"}, {"G2", "g2"}} {
		g := g
		zero, gen := tG0, tGen
		if g.s == "g2" {
			zero, gen = mkSym("g2:0"), mkSym("g2:gen")
		}
		op := func(o string) string { return o + g.s }
		negG := func(x *Term) *Term {
			if g.s == "g2" && x.op == "negg2" {
				return x.args[0]
			}
			return mk(op("neg"), "", x)
		}
		subG := func(a, b *Term) *Term {
			if g.s == "g2" {
				return mk("subg2", "", a, b)
			}
			return mk("addg1", "", a, negG(b))
		}
		pt := "bls12381.Point" + g.n + "."
		m[pt+"Zero"] = set(func(_ *Term, _ []*Term) *Term { return zero })
		m[pt+"Set"] = set(func(_ *Term, a []*Term) *Term { return a[0] })
		m["bls12381.New"+g.n] = func(c *Call) ([]*Term, bool) { return one(mkSym("group:" + g.n)), true }
		p := "bls12381." + g.n + "."
		ptr := func(f func(a []*Term) *Term) intrin {
			return func(c *Call) ([]*Term, bool) { return one(c.newPtr(f(vals(c)), c.resT(0))), true }
		}
		m[p+"New"] = ptr(func([]*Term) *Term { return zero })
		m[p+"Zero"] = ptr(func([]*Term) *Term { return zero })
		m[p+"One"] = ptr(func([]*Term) *Term { return gen })
		dst := func(f func(a []*Term) *Term) intrin {
			return func(c *Call) ([]*Term, bool) {
				c.set(0, f(vals(c)[1:]))
				return one(c.args[0]), true
			}
		}
		m[p+"Add"] = dst(func(a []*Term) *Term { return mk(op("add"), "", a[0], a[1]) })
		m[p+"Sub"] = dst(func(a []*Term) *Term { return subG(a[0], a[1]) })
		m[p+"Neg"] = dst(func(a []*Term) *Term { return negG(a[0]) })
		m[p+"Double"] = dst(func(a []*Term) *Term { return mk(op("add"), "", a[0], a[0]) })
		m[p+"MulScalar"] = dst(func(a []*Term) *Term { return mk(op("mul"), "", a[0], scalarOf(a[1])) })
		m[p+"MultiExp"] = func(c *Call) ([]*Term, bool) {
			a := vals(c)
			e := mk("mexperr", "", a[1], a[2])
			if sameTerm(mkLen(a[1]), mkLen(a[2]), c.it.pc) {
				e = tNil
			}
			c.set(0, mk("lincomb"+map[string]string{"g1": "", "g2": "g2"}[g.s], "", c.pointees(1), scalarsOf(c.pointees(2))))
			return []*Term{c.args[0], e}, true
		}
		eq := func(f func(a []*Term) *Term) intrin {
			return func(c *Call) ([]*Term, bool) { return one(asBool(f(vals(c)))), true }
		}
		m[p+"Equal"] = eq(func(a []*Term) *Term { return mkEq(a[0], a[1]) })
		m[p+"IsZero"] = eq(func(a []*Term) *Term { return mkEq(a[0], zero) })
		// an element is its affine form: only the representation changes
		m[p+"Affine"] = func(c *Call) ([]*Term, bool) { return one(c.args[0]), true }
		m[p+"ToCompressed"] = func(c *Call) ([]*Term, bool) {
			return one(mk(map[string]string{"g1": "compress", "g2": "compressg2"}[g.s], "", vals(c)[0])), true
		}
		m[p+"ToUncompressed"] = func(c *Call) ([]*Term, bool) { return one(mk("uncompressed", g.n, vals(c)[0])), true }
		m[p+"FromCompressed"] = func(c *Call) ([]*Term, bool) {
			b := vals(c)[0]
			sfx := map[string]string{"g1": "", "g2": "g2"}[g.s]
			e := mk("decerr"+sfx, "", b)
			return []*Term{mkIte(mkEq(e, tNil), c.newPtr(mk("decpt"+sfx, "", b), c.resT(0)), tNil), e}, true
		}
		for _, n := range []string{"FromUncompressed", "FromBytes"} {
			n := n
			m[p+n] = func(c *Call) ([]*Term, bool) {
				b := vals(c)[0]
				return []*Term{c.newPtr(mk(n+g.n, "", b), c.resT(0)), mk(n+g.n+"err", "", b)}, true
			}
		}
	}
	// --- kilic: pairings
	m["bls12381.NewEngine"] = func(c *Call) ([]*Term, bool) { return one(c.newPtr(pairProduct(), c.resT(0))), true }
	m["bls12381.Engine.AddPair"] = set(func(v *Term, a []*Term) *Term { return pairProduct(v, pairTerm(a[0], a[1])) })
	m["bls12381.Engine.AddPairInv"] = set(func(v *Term, a []*Term) *Term { return pairProduct(v, pairInv(pairTerm(a[0], a[1]))) })
	m["bls12381.Engine.Reset"] = set(func(v *Term, a []*Term) *Term { return pairProduct() })
	m["bls12381.Engine.Check"] = is(func(v *Term, _ []*Term) *Term { return pairCheck(v) })

	// --- herumi
	hf := "kbls.Fr."
	m[hf+"SetString"] = func(c *Call) ([]*Term, bool) {
		a := vals(c)
		if !a[1].isInt(10) {
			return nil, false
		}
		c.it.write(c.recv, mk("setfr", "", a[0]), recvT(c), c.pos)
		return one(mk("decimalerr", "", a[0])), true
	}
	m[hf+"SetLittleEndian"] = func(c *Call) ([]*Term, bool) {
		c.it.write(c.recv, mk("frofle", "", vals(c)[0]), recvT(c), c.pos)
		return one(tNil), true
	}
	m[hf+"Serialize"] = m[fr+"RedToBytes"]
	m[hf+"SetInt64"] = set(func(_ *Term, a []*Term) *Term { return mk("asfr", "", a[0]) })
	m[hf+"Clear"] = m[fr+"Zero"]
	m[hf+"IsZero"], m[hf+"IsOne"], m[hf+"IsEqual"] = m[fr+"IsZero"], m[fr+"IsRedOne"], m[fr+"Equal"]
	m[hf+"GetString"] = func(c *Call) ([]*Term, bool) {
		if !vals(c)[0].isInt(10) {
			return nil, false
		}
		return one(mk("frstr", "", rv(c))), true
	}
	m[hf+"SetByCSPRNG"] = func(c *Call) ([]*Term, bool) {
		c.it.write(c.recv, c.fresh("frrand", mkSym("g:rand.Reader")), recvT(c), c.pos)
		return nil, true
	}
	three := func(f func(a []*Term) *Term) intrin {
		return func(c *Call) ([]*Term, bool) { c.set(0, f(vals(c)[1:])); return nil, true }
	}
	m["kbls.FrAdd"] = three(func(a []*Term) *Term { return mk("addfr", "", a[0], a[1]) })
	m["kbls.FrSub"] = three(func(a []*Term) *Term { return mk("addfr", "", a[0], neg(a[1])) })
	m["kbls.FrMul"] = three(func(a []*Term) *Term { return mk("mulfr", "", a[0], a[1]) })
	m["kbls.FrDiv"] = three(func(a []*Term) *Term { return mk("mulfr", "", a[0], mk("invfr", "", a[1])) })
	m["kbls.FrInv"] = three(func(a []*Term) *Term { return mk("invfr", "", a[0]) })
	m["kbls.FrNeg"] = three(func(a []*Term) *Term { return neg(a[0]) })
	m["kbls.FrSqr"] = three(func(a []*Term) *Term { return mk("mulfr", "", a[0], a[0]) })
	m["kbls.FrEvaluatePolynomial"] = func(c *Call) ([]*Term, bool) {
		a := vals(c)
		c.set(0, mk("eval", "", a[1], a[2]))
		return one(mk("evalerr", "", a[1])), true
	}
	for _, g := range []struct{ n, s string }{{"G1", "g1"}, {"G2", "g2"}} {
		g := g
		p := "kbls." + g.n
		zero := tG0
		if g.s == "g2" {
			zero = mkSym("g2:0")
		}
		m[p+".Clear"] = set(func(_ *Term, _ []*Term) *Term { return zero })
		m[p+"Add"] = three(func(a []*Term) *Term { return mk("add"+g.s, "", a[0], a[1]) })
		m[p+"Sub"] = three(func(a []*Term) *Term {
			if g.s == "g2" {
				return mk("subg2", "", a[0], a[1])
			}
			return mk("addg1", "", a[0], mk("negg1", "", a[1]))
		})
		m[p+"Neg"] = three(func(a []*Term) *Term { return mk("neg"+g.s, "", a[0]) })
		m[p+"Mul"] = three(func(a []*Term) *Term { return mk("mul"+g.s, "", a[0], a[1]) })
		m[p+"MulCT"] = m[p+"Mul"]
		m[p+"Dbl"] = three(func(a []*Term) *Term { return mk("add"+g.s, "", a[0], a[0]) })
		m[p+"MulVec"] = three(func(a []*Term) *Term {
			return mk("lincomb"+map[string]string{"g1": "", "g2": "g2"}[g.s], "", a[0], a[1])
		})
		m[p+".IsEqual"] = is(func(v *Term, a []*Term) *Term { return mkEq(v, a[0]) })
		m[p+".IsZero"] = is(func(v *Term, a []*Term) *Term { return mkEq(v, zero) })
		m[p+".GetString"] = get(func(v *Term, a []*Term) *Term { return mk(g.s+"str", "", v) })
	}
	for _, x := range []struct{ to, from, typ, s string }{{"CastToPublicKey", "CastFromPublicKey", "PublicKey", ""}, {"CastToSign", "CastFromSign", "Sign", "g2"}} {
		x := x
		same := func(c *Call) ([]*Term, bool) { return one(c.newPtr(c.val(0), c.resT(0))), true }
		m["kbls."+x.to], m["kbls."+x.from] = same, same
		m["kbls."+x.typ+".Serialize"] = get(func(v *Term, _ []*Term) *Term { return mk("compress"+x.s, "", v) })
		m["kbls."+x.typ+".Deserialize"] = func(c *Call) ([]*Term, bool) {
			b := vals(c)[0]
			c.it.write(c.recv, mk("decpt"+x.s, "", b), recvT(c), c.pos)
			return one(mk("decerr"+x.s, "", b)), true
		}
	}
	m["kbls.Pairing"] = three(func(a []*Term) *Term { return pairProduct(pairTerm(a[0], a[1])) })
	m["kbls.GTInv"] = three(func(a []*Term) *Term {
		if a[0].op != "pairs" {
			return mk("gtinv", "", a[0])
		}
		var out []*Term
		for _, p := range a[0].args {
			out = append(out, pairInv(p))
		}
		return pairProduct(out...)
	})
	m["kbls.GTMul"] = three(func(a []*Term) *Term { return pairProduct(a[0], a[1]) })
	m["kbls.FinalExp"] = three(func(a []*Term) *Term { return a[0] })
	m["kbls.GT.IsOne"] = is(func(v *Term, _ []*Term) *Term { return pairCheck(v) })
	m["kbls.GT.IsEqual"] = is(func(v *Term, a []*Term) *Term {
		if a[0].op != "pairs" || v.op != "pairs" {
			return mkEq(v, a[0])
		}
		var inv []*Term
		for _, p := range a[0].args {
			inv = append(inv, pairInv(p))
		}
		return pairCheck(pairProduct(append([]*Term{v}, inv...)...))
	})

	// --- uint256
	u := "uint256.Int."
	m[u+"SetFromBig"] = func(c *Call) ([]*Term, bool) {
		v := vals(c)[0]
		o := mk("overflow256", "", v)
		switch v.op {
		case "bigdec":
			v = mk("setfr", "", v.args[0])
		case "frrand", "invfr", "expfr", "bigfr":
			o = tFalse
			if v.op == "bigfr" {
				v = v.args[0]
			}
		}
		c.it.write(c.recv, v, recvT(c), c.pos)
		return one(asBool(o)), true
	}
	m[u+"SetBytes"] = m[fr+"RedFromBytes"]
	m[u+"SetBytes32"] = m[fr+"RedFromBytes"]
	m[u+"Bytes32"] = m[fr+"RedToBytes"]
	m[u+"SetUint64"] = set(func(_ *Term, a []*Term) *Term { return mk("asfr", "", a[0]) })
	m[u+"ToBig"] = func(c *Call) ([]*Term, bool) {
		v := rv(c)
		if v != tModulus {
			v = mk("bigfr", "", v)
		}
		return one(c.newPtr(v, c.resT(0))), true
	}
	m[u+"IsZero"], m[u+"Eq"] = m[fr+"IsZero"], m[fr+"Equal"]
	m[u+"Set"] = m[fr+"Set"]
	m[u+"Clear"] = m[fr+"Zero"]
	m[u+"AddMod"] = set(func(_ *Term, a []*Term) *Term { return reduceMod(mk("bigadd", "", a[0], a[1]), a[2]) })
	m[u+"MulMod"] = set(func(_ *Term, a []*Term) *Term { return reduceMod(mk("bigmul", "", a[0], a[1]), a[2]) })
	sub256 := func(x, y *Term) *Term {
		switch {
		case x == tFr0 && y.op == "wrapsub": // 0 - (a - b mod 2^256)
			return mk("wrapsub", "", y.args[1], y.args[0])
		case x == tModulus && y.op == "wrapsub": // p - (b - a)
			return mk("addfr", "", y.args[1], mk("negfr", "", y.args[0]))
		}
		return mk("wrapsub", "", x, y)
	}
	m[u+"Sub"] = set(func(_ *Term, a []*Term) *Term { return sub256(a[0], a[1]) })
	m[u+"SubOverflow"] = func(c *Call) ([]*Term, bool) {
		a := vals(c)
		under := asBool(mk("underflow", "", a[0], a[1]))
		// without a borrow the difference of two elements is below the modulus
		c.it.write(c.recv, mkIte(under, sub256(a[0], a[1]), mk("addfr", "", a[0], neg(a[1]))), recvT(c), c.pos)
		return []*Term{c.recv, under}, true
	}

	// --- big integers: field elements of the big.Int backend, and conversions
	b := "big.Int."
	big := func(x *Term) *Term { // an element read as an integer
		if x.op == "bigfr" {
			return x.args[0]
		}
		return x
	}
	m[b+"Set"] = set(func(_ *Term, a []*Term) *Term { return a[0] })
	m[b+"SetUint64"] = set(func(_ *Term, a []*Term) *Term { return mk("asfr", "", a[0]) })
	m[b+"SetBytes"] = set(func(_ *Term, a []*Term) *Term { return fromBytes(a[0]) })
	m[b+"SetString"] = func(c *Call) ([]*Term, bool) {
		a := vals(c)
		if !a[1].isInt(10) {
			return nil, false
		}
		v := mk("bigdec", "", a[0])
		if a[0].op == "frstr" {
			v = mk("bigfr", "", a[0].args[0])
		}
		c.it.write(c.recv, v, recvT(c), c.pos)
		if v.op == "bigfr" {
			return []*Term{c.recv, tTrue}, true
		}
		return []*Term{c.recv, asBool(mk("decimal", "", a[0]))}, true
	}
	m[b+"UnmarshalText"] = func(c *Call) ([]*Term, bool) {
		a := vals(c)
		v := mk("bigdec", "", a[0])
		if c.recv.op == "loc" || c.recv.op == "sym" {
			c.it.write(c.recv, v, recvT(c), c.pos)
		}
		return one(mk("decimalerr", "", a[0])), true
	}
	m[b+"Bytes"] = get(func(v *Term, _ []*Term) *Term { return mk("bigbytes", "", v) })
	m[b+"FillBytes"] = func(c *Call) ([]*Term, bool) {
		if n := mkLen(c.args[0]); !n.isInt(32) {
			return one(mk("fillbytes", "", rv(c), n)), true
		}
		return one(mk("frbe", "", rv(c))), true
	}
	m[b+"String"] = get(func(v *Term, _ []*Term) *Term { return mk("frstr", "", big(v)) })
	m[b+"Add"] = set(func(_ *Term, a []*Term) *Term { return mk("bigadd", "", big(a[0]), big(a[1])) })
	m[b+"Sub"] = set(func(_ *Term, a []*Term) *Term { return mk("bigsub", "", big(a[0]), big(a[1])) })
	m[b+"Mul"] = set(func(_ *Term, a []*Term) *Term { return mk("bigmul", "", big(a[0]), big(a[1])) })
	m[b+"Mod"] = set(func(_ *Term, a []*Term) *Term { return reduceMod(a[0], a[1]) })
	m[b+"ModInverse"] = set(func(_ *Term, a []*Term) *Term {
		if a[1] != tModulus {
			return mk("modinverse", "", a...)
		}
		return mk("invfr", "", big(a[0]))
	})
	m[b+"Exp"] = set(func(_ *Term, a []*Term) *Term {
		if a[2] != tModulus {
			return mk("bigexp", "", a...)
		}
		return mk("expfr", "", big(a[0]), a[1])
	})
	m[b+"Cmp"] = func(c *Call) ([]*Term, bool) {
		v, a := rv(c), vals(c)
		return one(mkIte(mkEq(v, a[0]), mkInt(0), mkIte(asBool(mk("bigless", "", v, a[0])), mkInt(-1), mkInt(1)))), true
	}
	m["rand.Int"] = func(c *Call) ([]*Term, bool) {
		mod := c.val(1)
		v := c.fresh("bigrand", c.args[0], mod)
		if mod == tModulus {
			v = c.fresh("frrand", c.args[0])
		}
		return []*Term{c.newPtr(v, c.resT(0)), mk("randerr", "", v)}, true
	}
}

func isErr(t types.Type) bool { return types.TypeString(t, nil) == "error" }

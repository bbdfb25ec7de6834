package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// Call is a call to a function the engine models instead of analysing its body.
type Call struct {
	it    *Interp
	fn    *types.Func
	name  string
	recv  *Term
	recvT types.Type
	args  []*Term
	ts    []types.Type
	pos   token.Pos
	call  *ast.CallExpr
}

func (c *Call) elemT(i int) types.Type {
	if p, ok := c.ts[i].Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return c.ts[i]
}

// val is the value of argument i: the pointee for a pointer, the contents for a slice.
func (c *Call) val(i int) *Term {
	t := c.ts[i]
	if t == nil {
		return c.args[i]
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		v := c.it.read(c.args[i], p.Elem())
		return c.it.deep(v, p.Elem())
	}
	return c.it.deep(c.args[i], t)
}

func (c *Call) set(i int, v *Term) {
	if c.args[i].op == "nil" {
		return
	}
	c.it.write(c.args[i], v, c.elemT(i), c.pos)
}

// newPtr returns a pointer to a fresh variable holding v.
func (c *Call) newPtr(v *Term, t types.Type) *Term {
	root := c.it.alloc(c.fn.Name(), c.pos, t)
	l := mkLoc(root)
	c.it.write(l, v, t, c.pos)
	return l
}

func (c *Call) resT(i int) types.Type {
	sig := c.fn.Type().(*types.Signature)
	t := sig.Results().At(i).Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (c *Call) site() string { return c.it.fr.cs + ":" + c.it.posStr(c.pos) }

func (c *Call) fresh(op string, args ...*Term) *Term {
	return mk(op, c.site(), append(args, c.it.loopSyms()...)...)
}

// deepDyn is the deep value of argument i, using the dynamic type behind an interface.
func (c *Call) deepDyn(i int) *Term {
	a := c.args[i]
	if a.op == "loc" {
		if dt := c.it.dynType(a); dt != nil && dt.Underlying() != nil {
			if _, ok := dt.Underlying().(*types.Struct); ok && !isAtomicType(dt) {
				return c.it.deep(c.it.read(a, dt), dt)
			}
		}
	}
	if a.op == "ite" {
		x := *c
		x.args = append([]*Term{}, c.args...)
		x.args[i] = a.args[1]
		h := x.deepDyn(i)
		x.args[i] = a.args[2]
		return mkIte(a.args[0], h, x.deepDyn(i))
	}
	return c.it.deep(a, c.ts[i])
}

// writeAll overwrites the elements of slice s by those of the sequence v (of the same length).
func (c *Call) writeAll(s, v *Term, et types.Type) {
	it := c.it
	if it.pc == tFalse || s.op == "nil" || s == tEmpty {
		return
	}
	n := mkLen(s)
	x := freshSym("w")
	rng[x] = [2]*Term{mkInt(0), addc(n, -1)}
	root, path := locParts(elemLoc(s, x))
	it.seq++
	it.mem.push(&Entry{vars: []QVar{{x, n}}, root: root, path: path, guard: it.pc, val: mkSel(v, x), typ: et, pos: c.pos, ctx: it.ctx, seq: it.seq, held: it.heldNow(), inl: it.loopSyms()})
}

func one(t *Term) []*Term { return []*Term{t} }

type intrin func(c *Call) ([]*Term, bool)

func pure(op string) intrin {
	return func(c *Call) ([]*Term, bool) {
		var as []*Term
		if c.recv != nil {
			as = append(as, c.recv)
		}
		for i := range c.args {
			as = append(as, c.val(i))
		}
		return one(typed(mk(op, "", as...), c.fn.Type().(*types.Signature).Results().At(0).Type())), true
	}
}

// setter: dst = op(other arguments)
func setter(f func(a []*Term) *Term) intrin {
	return func(c *Call) ([]*Term, bool) {
		var as []*Term
		for i := 1; i < len(c.args); i++ {
			as = append(as, c.val(i))
		}
		c.set(0, f(as))
		return nil, true
	}
}

func pred(f func(a []*Term) *Term) intrin {
	return func(c *Call) ([]*Term, bool) {
		var as []*Term
		for i := range c.args {
			as = append(as, c.val(i))
		}
		return one(asBool(f(as))), true
	}
}

func ptrRes(f func(a []*Term) *Term) intrin {
	return func(c *Call) ([]*Term, bool) {
		var as []*Term
		for i := range c.args {
			as = append(as, c.val(i))
		}
		return one(c.newPtr(f(as), c.resT(0))), true
	}
}

func nop(c *Call) ([]*Term, bool) {
	sig := c.fn.Type().(*types.Signature)
	var out []*Term
	for k := 0; k < sig.Results().Len(); k++ {
		out = append(out, typed(c.fresh("nd", mkInt(int64(k))), sig.Results().At(k).Type()))
	}
	return out, true
}

func (c *Call) eff(kind string, args ...*Term) *Effect {
	return c.it.effect(kind, c.name, c.pos, args...)
}

// boundary records a call as an effect with its deep arguments.
func boundary(kind string) intrin {
	return func(c *Call) ([]*Term, bool) {
		var as []*Term
		for i := range c.args {
			as = append(as, c.deepDyn(i))
		}
		e := c.eff(kind, as...)
		_ = e
		sig := c.fn.Type().(*types.Signature)
		var out []*Term
		for k := 0; k < sig.Results().Len(); k++ {
			t := sig.Results().At(k).Type()
			v := raw("res", c.fn.Name(), int64(k), append(append([]*Term{}, as...), mkStr(c.site())), nil)
			v = subLoops(v, c.it)
			out = append(out, typed(v, t))
		}
		return out, true
	}
}

func subLoops(v *Term, it *Interp) *Term {
	if len(it.loops) == 0 {
		return v
	}
	return raw(v.op, v.sym, v.iv, append(append([]*Term{}, v.args...), it.loopSyms()...), nil)
}

func fatal(c *Call) ([]*Term, bool) {
	var as []*Term
	for i := range c.args {
		as = append(as, c.it.deep(c.args[i], c.ts[i]))
	}
	c.eff("fatal", as...)
	c.it.pc = tFalse
	return nil, true
}

func logging(c *Call) ([]*Term, bool) {
	var as []*Term
	for i := range c.args {
		as = append(as, c.deepDyn(i))
	}
	c.eff("log", as...)
	return nop(c)
}

func interpT(deg, xs, ys *Term) *Term {
	n := addc(deg, 1)
	return mk("interp", "", deg, mkSub(xs, mkInt(0), n), mkSub(ys, mkInt(0), n))
}

func errTerm(op string, args ...*Term) *Term { return mk(op, "", args...) }

func lockOp(lock bool) intrin {
	return func(c *Call) ([]*Term, bool) {
		it := c.it
		r := c.recv
		if lock {
			it.effect("lock", c.name, c.pos, r)
			it.held = append(it.held, lockHeld{r, it.pc})
			return nil, true
		}
		it.effect("unlock", c.name, c.pos, r)
		for i := range it.held {
			if it.held[i].lock == r {
				it.held[i].cond = simplifyFull(bAnd(it.held[i].cond, bNot(it.pc)))
			}
		}
		var out []lockHeld
		for _, h := range it.held {
			if h.cond != tFalse {
				out = append(out, h)
			}
		}
		it.held = out
		return nil, true
	}
}

func simplifyFull(t *Term) *Term {
	if unsat(t) {
		return tFalse
	}
	return t
}

var intrinsics map[string]intrin

func init() {
	m := map[string]intrin{}
	intrinsics = m
	// --- field and group arithmetic
	m["bls.AsFr"] = setter(func(a []*Term) *Term { return mk("asfr", "", a[0]) })
	cp := func(a []*Term) *Term { return a[0] }
	m["bls.CopyFr"], m["bls.CopyG1"], m["bls.CopyG2"] = setter(cp), setter(cp), setter(cp)
	m["bls.AddModFr"] = setter(func(a []*Term) *Term { return mk("addfr", "", a[0], a[1]) })
	m["bls.SubModFr"] = setter(func(a []*Term) *Term { return mk("addfr", "", a[0], mk("negfr", "", a[1])) })
	m["bls.MulModFr"] = setter(func(a []*Term) *Term { return mk("mulfr", "", a[0], a[1]) })
	m["bls.DivModFr"] = setter(func(a []*Term) *Term { return mk("mulfr", "", a[0], mk("invfr", "", a[1])) })
	m["bls.InvModFr"] = setter(func(a []*Term) *Term { return mk("invfr", "", a[0]) })
	m["bls.ExpModFr"] = setter(func(a []*Term) *Term { return mk("expfr", "", a[0], a[1]) })
	m["bls.SetFr"] = setter(func(a []*Term) *Term { return mk("setfr", "", a[0]) })
	ev := setter(func(a []*Term) *Term {
		if a[1] == tFr0 {
			return mkSel(a[0], mkInt(0))
		}
		return mk("eval", "", a[0], a[1])
	})
	m["bls.EvalPolyAt"], m["bls.EvalPolyAtUnoptimized"] = ev, ev
	m["bls.RandomFr"] = func(c *Call) ([]*Term, bool) {
		v := c.fresh("rand")
		c.eff("random", v)
		return one(c.newPtr(v, c.resT(0))), true
	}
	m["bls.MulG1"] = setter(func(a []*Term) *Term { return mk("mulg1", "", a[0], a[1]) })
	m["bls.AddG1"] = setter(func(a []*Term) *Term { return mk("addg1", "", a[0], a[1]) })
	m["bls.SubG1"] = setter(func(a []*Term) *Term { return mk("addg1", "", a[0], mk("negg1", "", a[1])) })
	m["bls.NegG1"] = func(c *Call) ([]*Term, bool) { c.set(0, mk("negg1", "", c.val(0))); return nil, true }
	m["bls.ClearG1"] = func(c *Call) ([]*Term, bool) { c.set(0, tG0); return nil, true }
	m["bls.MulG2"] = setter(func(a []*Term) *Term { return mk("mulg2", "", a[0], a[1]) })
	m["bls.AddG2"] = setter(func(a []*Term) *Term { return mk("addg2", "", a[0], a[1]) })
	m["bls.SubG2"] = setter(func(a []*Term) *Term { return mk("subg2", "", a[0], a[1]) })
	m["bls.LinCombG1"] = ptrRes(func(a []*Term) *Term { return mk("lincomb", "", a[0], a[1]) })
	m["bls.LinCombFr"] = pure("lincombfr")
	m["bls.EqualFr"] = pred(func(a []*Term) *Term { return mkEq(a[0], a[1]) })
	m["bls.EqualG1"] = m["bls.EqualFr"]
	m["bls.EqualZero"] = pred(func(a []*Term) *Term { return mkEq(a[0], tFr0) })
	m["bls.EqualOne"] = pred(func(a []*Term) *Term { return mkEq(a[0], tFr1) })
	m["bls.PairingsVerify"] = pred(func(a []*Term) *Term { return mkAtom(raw("check", "pairing", 0, a, nil)) })
	m["bls.ToCompressedG1"] = pure("compress")
	m["bls.FromCompressedG1"] = func(c *Call) ([]*Term, bool) {
		b := c.val(0)
		e := mk("decerr", "", b)
		v := mk("decpt", "", b)
		p := c.newPtr(v, c.resT(0))
		return []*Term{mkIte(mkEq(e, tNil), p, tNil), e}, true
	}
	m["bls.FrTo32"] = pure("frbytes")
	m["bls.FrFrom32"] = func(c *Call) ([]*Term, bool) {
		b := c.val(1)
		c.set(0, mk("frfrom", "", b))
		if b.op == "frbytes" {
			return one(tTrue), true
		}
		return one(mkAtom(raw("check", "frcanon", 0, []*Term{b}, nil))), true
	}
	m["bls.FrStr"] = pure("frstr")
	m["bls.Fr.String"] = func(c *Call) ([]*Term, bool) { return one(mk("frstr", "", c.recvVal())), true }
	m["bls.StrG1"] = pure("g1str")
	m["bls.G1Point.String"] = func(c *Call) ([]*Term, bool) { return one(mk("g1str", "", c.recvVal())), true }
	// --- polynomial commitments and interpolation
	m["polycommit.KZGSettings.CommitToPoly"] = ptrRes(func(a []*Term) *Term { return mk("commit", "", a[0]) })
	m["polycommit.KZGSettings.ComputeProofSingle"] = ptrRes(func(a []*Term) *Term { return mk("proof", "", a[0], a[1]) })
	m["polycommit.KZGSettings.CheckProofSingle"] = pred(func(a []*Term) *Term { return mkAtom(raw("check", "kzg", 0, a, nil)) })
	m["polycommit.GenerateTestingSetup"] = func(c *Call) ([]*Term, bool) {
		a, b := c.val(0), c.val(1)
		return []*Term{mk("setup1", "", a, b), mk("setup2", "", a, b)}, true
	}
	m["polycommit.NewKZGSettings"] = func(c *Call) ([]*Term, bool) {
		return one(mk("kzgset", "", c.args[0], c.args[1], c.args[2])), true
	}
	m["polyring.LagrangeInterpolate"] = func(c *Call) ([]*Term, bool) {
		return one(interpT(c.args[0], c.val(1), c.val(2))), true
	}
	m["party.GetLagrangeCoefficients"] = func(c *Call) ([]*Term, bool) {
		v := mk("lagr", "", mkSub(c.val(1), mkInt(0), addc(c.args[0], 1)), c.val(2))
		c.writeAll(c.args[3], v, c.ts[3].Underlying().(*types.Slice).Elem())
		return nil, true
	}
	// --- wire messages
	m["proto.Marshal"] = func(c *Call) ([]*Term, bool) {
		v := c.deepDyn(0)
		n := "?"
		if v.op == "struct" {
			n = structName(v)
		} else if p, ok := c.ts[0].Underlying().(*types.Pointer); ok {
			n = typName(p.Elem())
			v = c.val(0)
		} else if dt := c.it.dynType(c.args[0]); dt != nil && c.args[0].op == "loc" {
			n = typName(dt)
		} else if v.op == "unm" {
			n = v.sym
		}
		return []*Term{raw("marshal", n, 0, []*Term{v}, nil), mk("marsherr", "", v)}, true
	}
	m["proto.Unmarshal"] = func(c *Call) ([]*Term, bool) {
		data := c.val(0)
		var t types.Type
		if p, ok := c.ts[1].Underlying().(*types.Pointer); ok {
			t = p.Elem()
		} else {
			t = c.it.dynType(c.args[1])
		}
		if t == nil {
			c.it.note("unmarshal into unknown type at %s", c.it.posStr(c.pos))
			return one(mk("unmerr", "?", data)), true
		}
		n := typName(t)
		c.it.write(c.args[1], mk("unm", n, data), t, c.pos)
		if data.op == "marshal" && data.sym == n {
			return one(tNil), true
		}
		return one(mk("unmerr", n, data)), true
	}
	m["party.HonestParty.GetMessage"] = func(c *Call) ([]*Term, bool) {
		v := raw("mailbox", "", 0, []*Term{c.val(0), c.val(1)}, nil)
		c.eff("mailbox", v)
		return one(v), true
	}
	for _, n := range []string{"Send", "Broadcast", "BroadcastExclude", "SendToNextCommittee", "BroadcastToNextCommittee"} {
		m["party.HonestParty."+n] = boundary("Send")
	}
	for _, n := range []string{"HonestParty.RBCSend", "HonestParty.RBCReceive", "MainProcess", "SPBSender", "SPBReceiver", "Sender", "Receiver", "HonestParty.InitReceiveChannel", "HonestParty.InitSendChannel", "HonestParty.InitSendToNextChannel"} {
		m["party."+n] = boundary("Call")
	}
	m["party.Client.Send"] = boundary("Send")
	// --- threshold signatures
	m["sign.ThresholdScheme.Sign"] = func(c *Call) ([]*Term, bool) {
		v := mk("tsign", "", c.args[0], c.val(1))
		return []*Term{v, mk("tsignerr", "", c.args[0], c.val(1))}, true
	}
	m["sign.ThresholdScheme.VerifyPartial"] = func(c *Call) ([]*Term, bool) {
		return one(mk("vperr", "", c.args[0], c.val(1), c.val(2))), true
	}
	m["sign.ThresholdScheme.VerifyRecovered"] = func(c *Call) ([]*Term, bool) {
		return one(mk("vrerr", "", c.args[0], c.val(1), c.val(2))), true
	}
	m["sign.ThresholdScheme.Recover"] = func(c *Call) ([]*Term, bool) {
		v := mk("trec", "", c.args[0], c.val(1), c.val(2), c.args[3], c.args[4])
		return []*Term{v, mk("trecerr", "", c.args[0], c.val(1), c.val(2), c.args[3], c.args[4])}, true
	}
	m["sign.ThresholdScheme.IndexOf"] = func(c *Call) ([]*Term, bool) {
		return []*Term{mk("tidx", "", c.val(0)), mk("tidxerr", "", c.val(0))}, true
	}
	m["sign.Scheme.Verify"] = func(c *Call) ([]*Term, bool) {
		return one(mk("bverr", "", c.args[0], c.val(1), c.val(2))), true
	}
	m["sign.AggregatableScheme.Verify"] = m["sign.Scheme.Verify"]
	m["share.PubPoly.Commit"] = func(c *Call) ([]*Term, bool) { return one(mk("pkc", "", c.recv)), true }
	for _, n := range []string{"kyberbls.NewBLS12381Suite", "bls.NewBLS12381Suite", "kbls.NewBLS12381Suite"} {
		m[n] = func(c *Call) ([]*Term, bool) { return one(mkSym("suite")), true }
	}
	for _, n := range []string{"tbls.NewThresholdSchemeOnG1", "kbls.NewSchemeOnG1", "bls.NewSchemeOnG1"} {
		n := n
		m[n] = func(c *Call) ([]*Term, bool) { return one(mk("scheme", n, c.args[0])), true }
	}
	// --- hashes and buffers
	m["sha256.New"] = func(c *Call) ([]*Term, bool) {
		return one(c.newPtr(tEmpty, hashT)), true
	}
	m["hash.Hash.Write"] = func(c *Call) ([]*Term, bool) {
		old := c.it.read(c.recv, hashT)
		c.it.write(c.recv, mkCat(old, c.val(0)), hashT, c.pos)
		return []*Term{mkLen(c.val(0)), tNil}, true
	}
	m["io.Writer.Write"] = func(c *Call) ([]*Term, bool) {
		if c.recv != nil && c.recv.op == "loc" {
			return m["hash.Hash.Write"](c)
		}
		return nil, false
	}
	m["hash.Hash.Sum"] = func(c *Call) ([]*Term, bool) {
		old := c.it.read(c.recv, hashT)
		return one(mkCat(c.val(0), mk("sha256", "", old))), true
	}
	m["hash.Hash.Reset"] = func(c *Call) ([]*Term, bool) { c.it.write(c.recv, tEmpty, hashT, c.pos); return nil, true }
	m["sha256.Sum256"] = pure("sha256")
	m["sha3.Sum512"] = pure("sha512")
	bufT := func(c *Call) types.Type {
		t := c.fn.Type().(*types.Signature).Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		return t
	}
	bufAppend := func(c *Call, v *Term) {
		t := bufT(c)
		c.it.write(c.recv, mkCat(c.it.read(c.recv, t), v), t, c.pos)
	}
	m["bytes.NewBuffer"] = ptrRes(func(a []*Term) *Term { return a[0] })
	m["bytes.NewBufferString"] = m["bytes.NewBuffer"]
	m["bytes.Buffer.Write"] = func(c *Call) ([]*Term, bool) {
		bufAppend(c, c.val(0))
		return []*Term{mkLen(c.val(0)), tNil}, true
	}
	m["bytes.Buffer.WriteString"] = m["bytes.Buffer.Write"]
	m["bytes.Buffer.WriteByte"] = func(c *Call) ([]*Term, bool) {
		v := c.args[0]
		if v.op == "int" {
			bufAppend(c, mkStr(string([]byte{byte(v.iv)})))
		} else {
			bufAppend(c, mkList(v))
		}
		return one(tNil), true
	}
	m["bytes.Buffer.Bytes"] = func(c *Call) ([]*Term, bool) { return one(c.it.read(c.recv, bufT(c))), true }
	m["bytes.Buffer.String"] = m["bytes.Buffer.Bytes"]
	m["bytes.Buffer.Len"] = func(c *Call) ([]*Term, bool) { return one(mkLen(c.it.read(c.recv, bufT(c)))), true }
	m["bytes.Buffer.Reset"] = func(c *Call) ([]*Term, bool) {
		c.it.write(c.recv, tEmpty, bufT(c), c.pos)
		return nil, true
	}
	m["bytes.Equal"] = pred(func(a []*Term) *Term { return mkEq(a[0], a[1]) })
	m["bytes.Compare"] = func(c *Call) ([]*Term, bool) {
		return one(mkIte(mkEq(c.val(0), c.val(1)), mkInt(0), mk("cmpne", "", c.val(0), c.val(1)))), true
	}
	m["bytes.Join"] = func(c *Call) ([]*Term, bool) {
		l, sep := c.val(0), c.val(1)
		if l.op == "list" && sep == tEmpty {
			return one(mkCat(l.args...)), true
		}
		if l.op == "list" && len(l.args) > 0 {
			parts := []*Term{l.args[0]}
			for _, a := range l.args[1:] {
				parts = append(parts, sep, a)
			}
			return one(mkCat(parts...)), true
		}
		return one(mk("join", "", l, sep)), true
	}
	// --- integers as bytes
	bin := func(order string, v *Term, t types.Type) *Term {
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return mk("binenc", order+typName(t), v)
		}
		switch b.Kind() {
		case types.Uint32, types.Int32:
			return mk("u32"+order, "", v)
		case types.Uint64, types.Int64:
			return mk("u64"+order, "", v)
		case types.Uint8, types.Int8:
			return mkList(v)
		}
		return mk("binenc", order+b.Name(), v)
	}
	orderOf := func(v *Term) string {
		if strings.Contains(v.String(), "ittle") {
			return "le"
		}
		return "be"
	}
	m["binary.Write"] = func(c *Call) ([]*Term, bool) {
		bt := c.it.dynType(c.args[0])
		if bt == nil {
			return nil, false
		}
		v := c.args[2]
		t := c.ts[2]
		if p, ok := t.Underlying().(*types.Pointer); ok {
			v, t = c.it.read(v, p.Elem()), p.Elem()
		}
		c.it.write(c.args[0], mkCat(c.it.read(c.args[0], bt), bin(orderOf(c.args[1]), v, t)), bt, c.pos)
		return one(tNil), true
	}
	m["binary.Read"] = func(c *Call) ([]*Term, bool) {
		bt := c.it.dynType(c.args[0])
		p, ok := c.ts[2].Underlying().(*types.Pointer)
		if bt == nil || !ok {
			return nil, false
		}
		n := int64(4)
		op := "u32"
		switch b, _ := p.Elem().Underlying().(*types.Basic); {
		case b == nil:
			return nil, false
		case b.Kind() == types.Uint64 || b.Kind() == types.Int64:
			n, op = 8, "u64"
		case b.Kind() == types.Uint32 || b.Kind() == types.Int32:
		default:
			n, op = 0, "dec"+b.Name()
		}
		old := c.it.read(c.args[0], bt)
		v := typed(mk("de"+op+orderOf(c.args[1]), "", mkSub(old, mkInt(0), mkInt(n))), p.Elem())
		c.it.write(c.args[2], v, p.Elem(), c.pos)
		c.it.write(c.args[0], mkSub(old, mkInt(n), addc(mkLen(old), -n)), bt, c.pos)
		return one(mk("readerr", "", old)), true
	}
	for _, o := range []string{"big", "little"} {
		o := o
		ord := map[string]string{"big": "be", "little": "le"}[o]
		for _, w := range []string{"32", "64"} {
			w := w
			n := map[string]int64{"32": 4, "64": 8}[w]
			m["binary."+o+"Endian.PutUint"+w] = func(c *Call) ([]*Term, bool) {
				v := mk("u"+w+ord, "", c.args[1])
				c.writeAll(mkFirst(c.args[0], n), v, types.Typ[types.Uint8])
				return nil, true
			}
			m["binary."+o+"Endian.Uint"+w] = func(c *Call) ([]*Term, bool) {
				return one(typed(mk("deu"+w+ord, "", mkSub(c.val(0), mkInt(0), mkInt(n))), types.Typ[types.Uint64])), true
			}
			m["binary."+o+"Endian.AppendUint"+w] = func(c *Call) ([]*Term, bool) {
				return one(mkCat(c.val(0), mk("u"+w+ord, "", c.args[1]))), true
			}
		}
	}
	m["strconv.FormatUint"] = func(c *Call) ([]*Term, bool) {
		if c.args[1].isInt(10) {
			return one(mk("dec", "", c.args[0])), true
		}
		return one(mk("decbase", "", c.args...)), true
	}
	m["strconv.FormatInt"] = m["strconv.FormatUint"]
	m["strconv.Itoa"] = func(c *Call) ([]*Term, bool) { return one(mk("dec", "", c.args[0])), true }
	m["strconv.Atoi"] = func(c *Call) ([]*Term, bool) {
		a := c.val(0)
		if a.op == "dec" {
			return []*Term{a.args[0], tNil}, true
		}
		if a.op == "frstr" && a.args[0].op == "asfr" {
			return []*Term{a.args[0].args[0], tNil}, true
		}
		return []*Term{mk("atoi", "", a), mk("atoierr", "", a)}, true
	}
	m["strconv.ParseUint"] = m["strconv.Atoi"]
	m["strconv.ParseInt"] = m["strconv.Atoi"]
	// --- erasure coding
	m["reedsolomon.New"] = func(c *Call) ([]*Term, bool) {
		return []*Term{mk("rs", "", c.args[0], c.args[1]), mk("rserr", "", c.args[0], c.args[1])}, true
	}
	shardT := types.NewSlice(types.Typ[types.Uint8])
	m["reedsolomon.Encoder.Split"] = func(c *Call) ([]*Term, bool) {
		d := c.val(0)
		v := mk("rssplit", "", c.recv, d)
		var n *Term = mkLen(v)
		if c.recv.op == "rs" {
			n = add(c.recv.args[0], c.recv.args[1])
		}
		root := c.it.alloc("shards", c.pos, types.NewSlice(shardT))
		s := mkSlice(mkLoc(root), mkInt(0), n)
		c.writeAll(s, v, shardT)
		return []*Term{s, mk("rssplerr", "", c.recv, d)}, true
	}
	rsMut := func(op string) intrin {
		return func(c *Call) ([]*Term, bool) {
			old := c.val(0)
			v := mk(op, "", c.recv, old)
			c.writeAll(c.args[0], v, shardT)
			return one(mk(op+"err", "", c.recv, old)), true
		}
	}
	m["reedsolomon.Encoder.Encode"] = rsMut("rsenc")
	m["reedsolomon.Encoder.Reconstruct"] = rsMut("rsrec")
	m["reedsolomon.Encoder.ReconstructData"] = rsMut("rsrecd")
	m["reedsolomon.Encoder.Verify"] = func(c *Call) ([]*Term, bool) {
		v := c.val(0)
		return []*Term{mkAtom(raw("check", "rs", 0, []*Term{c.recv, v}, nil)), mk("rsvererr", "", c.recv, v)}, true
	}
	// --- synchronisation
	for _, n := range []string{"sync.Mutex", "sync.RWMutex"} {
		m[n+".Lock"], m[n+".Unlock"] = lockOp(true), lockOp(false)
	}
	m["sync.RWMutex.RLock"], m["sync.RWMutex.RUnlock"] = lockOp(true), lockOp(false)
	for _, n := range []string{"Add", "Done", "Wait"} {
		m["sync.WaitGroup."+n] = func(c *Call) ([]*Term, bool) {
			c.eff("wg", append([]*Term{c.recv}, c.args...)...)
			return nil, true
		}
	}
	m["sync.Map.Load"] = func(c *Call) ([]*Term, bool) {
		k := c.it.deep(c.args[0], c.ts[0])
		e := c.eff("smload", c.recv, k)
		_ = e
		return []*Term{mk("smval", "", c.recv, k), mkAtom(raw("has", "", 0, []*Term{mk("smslot", "", c.recv, k)}, nil))}, true
	}
	m["sync.Map.Store"] = func(c *Call) ([]*Term, bool) {
		c.eff("smstore", c.recv, c.it.deep(c.args[0], c.ts[0]), c.deepDyn(1))
		return nil, true
	}
	m["sync.Map.LoadOrStore"] = func(c *Call) ([]*Term, bool) {
		k := c.it.deep(c.args[0], c.ts[0])
		c.eff("smloadorstore", c.recv, k, c.args[1])
		return []*Term{mk("smval", "", c.recv, k), mkAtom(raw("has", "", 0, []*Term{mk("smslot", "", c.recv, k)}, nil))}, true
	}
	for _, n := range []string{"Delete", "LoadAndDelete", "Swap", "CompareAndSwap", "CompareAndDelete", "Clear", "Range"} {
		m["sync.Map."+n] = func(c *Call) ([]*Term, bool) {
			c.eff("smother", c.recv)
			return nil, false
		}
	}
	m["context.Background"] = func(c *Call) ([]*Term, bool) { return one(mkSym("ctx.bg")), true }
	m["context.WithCancel"] = func(c *Call) ([]*Term, bool) {
		x := c.fresh("ctxc", c.args[0])
		id := "cancel:" + c.site()
		return []*Term{x, raw("cancelfn", id, 0, []*Term{x}, nil)}, true
	}
	m["context.Context.Done"] = func(c *Call) ([]*Term, bool) { return one(mk("donech", "", c.recv)), true }
	m["context.Context.Err"] = func(c *Call) ([]*Term, bool) { return one(c.fresh("ctxerr", c.recv)), true }
	// --- logging, errors, time, process
	for _, p := range []string{"log", "log.Logger"} {
		for _, n := range []string{"Print", "Println", "Printf"} {
			m[p+"."+n] = logging
		}
		for _, n := range []string{"Fatal", "Fatalln", "Fatalf", "Panic", "Panicln", "Panicf"} {
			m[p+"."+n] = fatal
		}
	}
	for _, n := range []string{"Print", "Println", "Printf"} {
		m["fmt."+n] = logging
	}
	m["fmt.Fprintf"], m["fmt.Fprintln"], m["fmt.Fprint"] = logging, logging, logging
	m["os.Exit"] = fatal
	m["runtime.Goexit"] = fatal
	m["fmt.Sprintf"] = func(c *Call) ([]*Term, bool) {
		if t := c.format(); t != nil {
			return one(t), true
		}
		return nil, false
	}
	m["errors.New"] = func(c *Call) ([]*Term, bool) { return one(raw("errnew", "", 0, []*Term{c.val(0)}, nil)), true }
	m["fmt.Errorf"] = func(c *Call) ([]*Term, bool) {
		return one(raw("errnew", "", 0, []*Term{c.val(0)}, nil)), true
	}
	m["time.Now"] = nop
	m["time.Since"] = nop
	m["time.Sleep"] = func(c *Call) ([]*Term, bool) { c.eff("sleep", c.args[0]); return nil, true }
}

// format is the string made by Sprintf with a constant format of plain %d, %s and %v of numbers and strings.
func (c *Call) format() *Term {
	f := c.val(0)
	if f.op != "str" || c.call.Ellipsis.IsValid() {
		return nil
	}
	var parts []*Term
	n := 1
	s := f.sym
	for s != "" {
		k := strings.IndexByte(s, '%')
		if k < 0 || k+1 >= len(s) {
			parts = append(parts, mkStr(s))
			break
		}
		parts = append(parts, mkStr(s[:k]))
		v := s[k+1]
		s = s[k+2:]
		if v == '%' {
			parts = append(parts, mkStr("%"))
			continue
		}
		if n >= len(c.args) || c.ts[n] == nil {
			return nil
		}
		if methods := types.NewMethodSet(c.ts[n]); methods.Lookup(nil, "String") != nil || methods.Lookup(nil, "Error") != nil || methods.Lookup(nil, "Format") != nil {
			return nil
		}
		basic, _ := c.ts[n].Underlying().(*types.Basic)
		slice, _ := c.ts[n].Underlying().(*types.Slice)
		switch {
		case basic != nil && basic.Info()&types.IsInteger != 0 && (v == 'd' || v == 'v'):
			parts = append(parts, mk("dec", "", c.args[n]))
		case basic != nil && basic.Info()&types.IsString != 0 && (v == 's' || v == 'v'):
			parts = append(parts, c.args[n])
		case slice != nil && v == 's' && types.Identical(slice.Elem(), types.Typ[types.Byte]):
			parts = append(parts, c.val(n))
		default:
			return nil
		}
		n++
	}
	if n != len(c.args) {
		return nil
	}
	return mkCat(parts...)
}

func (c *Call) recvVal() *Term {
	t := c.fn.Type().(*types.Signature).Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		return c.it.read(c.recv, p.Elem())
	}
	return c.recv
}

func mkFirst(s *Term, n int64) *Term {
	if s.op == "slice" {
		return mkSlice(s.args[0], s.args[1], mkInt(n))
	}
	return mkSlice(s, mkInt(0), mkInt(n))
}

// hashT stands for the type of a running hash (its value is the bytes written so far).
var hashT types.Type = types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("hash", "hash"), "State", nil), types.NewStruct(nil, nil), nil)

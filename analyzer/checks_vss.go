package main

func init() {
	checks["P01"] = checkVSSReceive
}

// checkVSSReceive: the receiver of a sharing stores what it verified, and only that.
func checkVSSReceive(c *Ck) {
	r := c.run("party.HonestParty.VSSShareReceive")
	rs := r.recvs("VSSSend")
	if !c.ob(len(rs) == 1, "VSS.recv", r.name, "%d receive sites for VSSSend, want 1", len(rs)) {
		return
	}
	m := rs[0].args[1]
	c.eq(rs[0].args[0], r.T(`mailbox("VSSSend", id)`, "id", mkSym("arg0")), tTrue, "VSS.mailbox", r.name, "mailbox of the sharing")
	e := r.env.with("m", m)
	e = e.with("d", e.T(`unm("protobuf.VSSSend", m.Data)`))
	e = e.with("c", e.T(`d.Pi.PiContents`))
	complete := e.T(`!(d.Pi == nil_) && len(c) >= 2*F+2 && len(d.BijList) >= 2*F+2 && len(d.WBijList) >= 2*F+2`)
	conds := []struct{ rule, src string }{
		{"VSS.gs", `decG1(d.Pi.Gs) == lincomb(seq(j, 2*F+1, decG1(c[j+1].GFj)), lagr(seq(j, 2*F+1, asfr(j+1)), fr0))`},
		{"VSS.zero", `forall(j, 2*F+1, kzg(decG1(c[j+1].CZj), decG1(c[j+1].WZ0), fr0, fr0))`},
		{"VSS.sum", `forall(j, 2*F+1, addg1(decG1(c[j+1].GFj), decG1(c[j+1].CZj)) == decG1(c[j+1].CBj))`},
		{"VSS.points", `forall(j, 2*F+1, kzg(decG1(c[j+1].CBj), decG1(d.WBijList[j+1]), asfr(P.PID+1), fr32(d.BijList[j+1])))`},
	}
	accept := complete
	for _, k := range conds {
		accept = bAnd(accept, e.T(k.src))
	}
	k := idx("k", mkInt(1), e.T("2*F+1"))
	e = e.with("k", k)
	state := []struct{ loc, want string }{
		{`P.Proof.Gs`, `decG1(d.Pi.Gs)`},
		{`P.Proof.PiContents[k].CBj`, `decG1(c[k].CBj)`},
		{`P.Proof.PiContents[k].CZj`, `decG1(c[k].CZj)`},
		{`P.Proof.PiContents[k].WZ0`, `decG1(c[k].WZ0)`},
		{`P.Proof.PiContents[k].gFj`, `decG1(c[k].GFj)`},
		{`P.witness[k-1]`, `decG1(d.WBijList[k])`},
		{`P.witnessIndexes[k-1]`, `asfr(k)`},
		{`P.fullShare[k-1]`, `interp(2*F, seq(j, 2*F+1, asfr(j+1)), seq(j, 2*F+1, fr32(d.BijList[j+1])))[k-1]`},
	}
	for _, s := range state {
		old := r.readPath(newMem(), s.loc, e, tTrue)
		got := r.readPath(r.mem, s.loc, e, tTrue)
		c.eq(got, e.T(s.want), accept, "VSS.stores-verified", s.loc, "value stored after all checks passed")
		c.eq(got, old, bNot(complete), "VSS.reject-incomplete", s.loc, "value after an incomplete message")
		for _, k := range conds {
			c.eq(got, old, bAnd(complete, bNot(e.T(k.src))), k.rule, s.loc, "value after this check failed")
		}
	}
	// the call always returns
	c.totalReturn(r)
	c.noOtherState(r, "VSS.frame", "P.Proof", "P.Proof.PiContents", "P.witness", "P.witnessIndexes", "P.fullShare", "P")
}

func init() { checks["P02"] = checkVSSDealer }

// checkVSSDealer: what an honest dealer sends to every member.
func checkVSSDealer(c *Ck) {
	r := c.run("party.Client.Share")
	ss := r.sends("VSSSend")
	if !c.ob(len(ss) == 1 && len(r.allSends()) == 1, "dealer.sends", r.name, "%d VSSSend sends of %d sends, want 1 of 1", len(ss), len(r.allSends())) {
		return
	}
	s := ss[0]
	secret := mkSym("recv.s")
	for _, e := range r.mem.jent {
		_ = e
	}
	secret = mkFld(mkSym("recv"), "s")
	c.ob(s.all && len(s.loops) == 0, "dealer.recipients", "VSSSend", "sent to %s under loops %v, want exactly one message for each of the N members", short(s.dest), s.loops)
	c.eq(s.pc, tTrue, tTrue, "dealer.unconditional", "VSSSend", "condition of sending")
	c.eq(mkFld(s.msg, "Id"), mkSym("arg0"), s.pc, "dealer.id", "VSSSend", "instance ID")
	c.eq(mkFld(s.msg, "Sender"), mkInt(0x7fffffff), s.pc, "dealer.sender", "VSSSend", "sender field")
	if !c.ob(s.payload != nil && structName(s.payload) == "protobuf.VSSSend", "dealer.payload", "VSSSend", "payload is %s", short(s.data)) || s.dest == nil {
		return
	}
	i := addc(s.dest, 1) // index of the recipient
	j := idx("j", mkInt(1), r.T("2*F+1"))
	l := idx("l", mkInt(1), tF)
	pay := s.payload
	e := r.env.with("i", i, "j", j, "l", l, "s", secret, "pay", pay)
	pj := e.T(`pay.Pi.PiContents[j]`)
	e = e.with("pj", pj)
	Z := un(un(e.T(`pj.CZj`), "compress"), "commit")
	B := un(un(e.T(`pj.CBj`), "compress"), "commit")
	if !c.ob(Z != nil && B != nil, "dealer.commitments", "VSSSend", "CZj is %s and CBj is %s, want commitments", short(e.T(`pj.CZj`)), short(e.T(`pj.CBj`))) {
		return
	}
	e = e.with("Z", Z, "B", B)
	c.eq(mkLen(Z), e.T("F+1"), tTrue, "dealer.degree", "Z", "number of coefficients of Z_j (degree t)")
	c.eq(mkLen(B), e.T("F+1"), tTrue, "dealer.degree", "B", "number of coefficients of B(x,j) (degree t)")
	c.eq(e.T("Z[0]"), tFr0, tTrue, "dealer.zero-const", "Z", "constant term of Z_j")
	zl := simp2(e.T("Z[l]"), tTrue)
	c.randFresh(zl, "dealer.random", "Z", "coefficient l of Z_j", j, l)
	c.eq(e.T("B[l]"), zl, tTrue, "dealer.same-poly", "B", "coefficient l of B(x,j)")
	b0 := simp2(e.T("B[0]"), tTrue)
	pf := un(b0, "eval")
	if c.ob(pf != nil && b0.args[1] == e.T("asfr(j)"), "dealer.const-term", "B", "B(0,j) is %s, want F(j)", short(b0)) {
		c.eq(mkLen(pf), e.T("2*F+1"), tTrue, "dealer.degree", "F", "number of coefficients of F (degree 2t)")
		c.eq(mkSel(pf, mkInt(0)), secret, tTrue, "dealer.secret", "F", "F(0)")
		m := idx("m", mkInt(1), e.T("2*F"))
		fm := simp2(mkSel(pf, m), tTrue)
		c.randFresh(fm, "dealer.random", "F", "coefficient m of F", m)
		if zl.op == "rand" && fm.op == "rand" {
			c.ob(randSite(zl) != randSite(fm), "dealer.independent", "F", "F and Z_j are drawn at the same site %s", randSite(zl))
		}
	}
	want := []struct{ f, want string }{
		{"pay.Pi.Gs", "compress(mulg1(gen, s))"},
		{"pj.J", "j"},
		{"pj.WZ0", "compress(proof(Z, fr0))"},
		{"pj.GFj", "compress(mulg1(gen, B[0]))"},
		{"pay.BijList[j]", "frbytes(eval(B, asfr(i)))"},
		{"pay.WBijList[j]", "compress(proof(B, asfr(i)))"},
		{"len(pay.Pi.PiContents)", "2*F+2"},
		{"len(pay.BijList)", "2*F+2"},
		{"len(pay.WBijList)", "2*F+2"},
	}
	for _, w := range want {
		c.eq(e.T(w.f), e.T(w.want), tTrue, "dealer.payload", w.f, "payload for member i")
	}
	c.totalReturn(r)
	// the setter of the secret copies the given value
	q := c.run("party.Client.SetSecret")
	got := q.mem.readAt(mkSym("recv"), []*Term{fieldElem("s")}, nil, tTrue)
	c.eq(got, mkSym("arg0"), tTrue, "dealer.set-secret", q.name, "secret held after SetSecret")
}

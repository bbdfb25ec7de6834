package main

func init() {
	checks["P10"] = checkReduceSend
	checks["P11"] = checkReduceReceive
}

// stable replaces the loop-carried locations that, under pc, no iteration changes by their initial values.
func (r *Run) stable(t, pc *Term) *Term {
	return rewrite(t, func(x *Term) *Term {
		if x.op != "mu" {
			return nil
		}
		li := r.loopInfos[x.sym]
		if li == nil {
			return nil
		}
		h := raw("mu", x.sym, x.iv, []*Term{x.args[0], li.k}, nil)
		for _, l := range condLeaves(r.nextOf(li, h), pc) {
			if byEqualities(l[1], l[0]) != byEqualities(h, l[0]) {
				return nil
			}
		}
		return r.counterInit(li, h)
	})
}

// eqAny is eq with several acceptable forms of the same value.
func (c *Ck) eqAny(got *Term, wants []*Term, pc *Term, rule, site, what string) bool {
	for _, w := range wants {
		if sameTerm(got, w, pc) {
			return c.ob(true, rule, site, "")
		}
	}
	return c.eq(got, wants[0], pc, rule, site, what)
}

// checkReduceSend: what the members of the old committee hand to those of the new one.
func checkReduceSend(c *Ck) {
	r := c.run("party.HonestParty.ShareReduceSend")
	id := mkSym("arg0")
	ss := r.sends("ShareReduce")
	if c.ob(len(ss) == 1 && len(r.allSends()) == 1, "reduce.send", "ShareReduce", "%d ShareReduce sends of %d sends, want 1 of 1", len(ss), len(r.allSends())) {
		s := ss[0]
		c.ob(s.all && s.next && len(s.loops) == 0, "reduce.send", "ShareReduce: recipients", "sent to %s (next committee: %v) under %v, want one message to each member of the next committee", short(s.dest), s.next, s.loops)
		c.eq(s.pc, tTrue, tTrue, "reduce.send", "ShareReduce: condition", "condition of sending")
		c.eq(mkFld(s.msg, "Id"), id, tTrue, "reduce.send", "ShareReduce: instance", "instance ID")
		c.eq(mkFld(s.msg, "Sender"), r.T("P.PID"), tTrue, "reduce.send", "ShareReduce: sender", "sender")
		if c.ob(s.payload != nil && structName(s.payload) == "protobuf.ShareReduce" && s.dest != nil, "reduce.payload", "ShareReduce", "payload is %s", short(s.data)) {
			e := r.env.with("d", s.dest)
			e = e.with("j", e.T("d+1"))
			known := e.T("forall(b, 2*F+1, P.witnessIndexes[b] == asfr(b+1))")
			lo := e.T("d <= 2*F")
			full := e.T("seq(b, 2*F+1, asfr(b+1))")
			e = e.with("xs", full)
			comI := e.T("compress(lincomb(seq(b, 2*F+1, P.Proof.PiContents[b+1].CBj), lagr(xs, asfr(j))))")
			witI := e.T("compress(lincomb(P.witness, lagr(xs, asfr(j))))")
			V := s.f("V")
			C, W := func(pc *Term) *Term { return r.stable(s.f("C"), pc) }, func(pc *Term) *Term { return r.stable(s.f("W"), pc) }
			c.eq(V, e.T("frbytes(eval(P.fullShare, asfr(j)))"), tTrue, "reduce.payload", "V", "value for this member")
			c.eqAny(C(lo), []*Term{e.T("compress(P.Proof.PiContents[j].CBj)"), comI}, lo, "reduce.payload", "C: stored index", "commitment for this member")
			c.eq(C(bNot(lo)), comI, bNot(lo), "reduce.payload", "C: interpolated index", "commitment for this member")
			c.eqAny(W(bAnd(known, lo)), []*Term{e.T("compress(P.witness[d])"), witI}, bAnd(known, lo), "reduce.payload", "W: stored index", "witness for this member")
			c.eq(W(bAnd(known, bNot(lo))), witI, bAnd(known, bNot(lo)), "reduce.payload", "W: interpolated index", "witness for this member")
			if s := simplify(known, tTrue); s != tTrue {
				c.eq(W(bNot(known)), e.T("compress(lincomb(P.witness, lagr(P.witnessIndexes, asfr(j))))"), bNot(known), "reduce.payload", "W: other indexes", "witness for this member")
			}
		}
	}
	c.totalReturn(r)
	c.noOtherState(r, "reduce.frame", "P")

	r = c.run("party.HonestParty.PrepareSend")
	ss = r.sends("Prepare")
	if c.ob(len(ss) == 1 && len(r.allSends()) == 1, "prepare.send", "Prepare", "%d Prepare sends of %d sends, want 1 of 1", len(ss), len(r.allSends())) {
		s := ss[0]
		c.ob(s.all && s.next && len(s.loops) == 0, "prepare.send", "Prepare: recipients", "sent to %s (next committee: %v) under %v, want one message to each member of the next committee", short(s.dest), s.next, s.loops)
		for _, a := range atomsOf(s.pc) {
			c.ob(containsOp(a, "marsherr"), "prepare.send", "Prepare: condition", "sent only if %s", short(s.pc))
		}
		c.eq(mkFld(s.msg, "Id"), id, tTrue, "prepare.send", "Prepare: instance", "instance ID")
		c.eq(mkFld(s.msg, "Sender"), r.T("P.PID"), tTrue, "prepare.send", "Prepare: sender", "sender")
		if c.ob(s.payload != nil && structName(s.payload) == "protobuf.Prepare", "prepare.payload", "Prepare", "payload is %s", short(s.data)) {
			k := idx("k", mkInt(1), r.T("2*F+1"))
			e := r.env.with("pay", s.payload, "k", k)
			c.eq(e.T("len(pay.Commitments)"), e.T("2*F+2"), tTrue, "prepare.payload", "Commitments", "number of entries")
			c.eq(e.T("pay.Commitments[k]"), e.T("compress(P.Proof.PiContents[k].CBj)"), tTrue, "prepare.payload", "Commitments[k]", "commitment to the sharing of index k")
		}
	}
	c.noOtherState(r, "prepare.frame", "P")
}

func containsOp(t *Term, op string) bool {
	hit := false
	walk(t, func(x *Term) { hit = hit || x.op == op })
	return hit
}

// checkReduceReceive: what the members of the new committee take over.
func checkReduceReceive(c *Ck) {
	r := c.run("party.HonestParty.ShareReduceReceive")
	id := mkSym("arg0")
	if x := r.one("ShareReduce", "reduce.recv"); x != nil {
		m := x.args[1]
		c.ob(x.args[0].args[1] == id, "reduce.recv", "mailbox", "receives from instance %s", brief(x.args[0].args[1]))
		e := r.env.with("m", m)
		e = e.with("d", e.T(`unm("protobuf.ShareReduce", m.Data)`))
		ok := e.T("kzg(decG1(d.C), decG1(d.W), asfr(m.Sender+1), fr32(d.V))")
		n := 0
		for _, w := range r.mem.jent {
			if w.barrier != "" || w.root != tP || len(w.path) == 0 || w.path[0].sym != "reducedShare" || unsat(w.guard) {
				continue
			}
			n++
			site := "reduced share"
			c.tally(r, "reduce.quorum", site, Tally{g: w.guard, T: r.T("F+1"), valid: ok, sender: e.T("m.Sender"), exact: true, key: []*Term{e.T("d.C")}})
			v := simp2(w.val, w.guard)
			if !c.ob(v.op == "interp" && len(w.path) == 1, "reduce.interpolated", site, "set to %s, want an interpolated polynomial", short(v)) {
				continue
			}
			c.eq(v.args[0], tF, tTrue, "reduce.degree", site, "degree")
			j := idx("j", mkInt(0), r.T("F+1"))
			X, Y := simp2(mkSel(v.args[1], j), w.guard), simp2(mkSel(v.args[2], j), w.guard)
			var M *Term
			for _, t := range []*Term{X, Y} {
				walk(t, func(x *Term) {
					if x.op == "sel" && x.args[1] == j && (x.args[0].op == "cat" || x.args[0].op == "mu") {
						M = x.args[0]
					}
				})
			}
			if !c.ob(M != nil, "reduce.points", site, "the points are %s, %s, want elements of the list of verified points", short(X), short(Y)) {
				continue
			}
			c.verifiedList(r, M, w.guard, X, Y, j, e, ok)
		}
		c.ob(n == 1, "reduce.interpolated", "reduced share", "set at %d places, want 1", n)
	}
	for _, x := range r.effects {
		if x.kind == "fatal" && !unsat(x.pc) {
			c.ob(false, "reduce.total", x.name, "%s at %s is reachable when %s", x.name, r.where(x), short(x.pc))
		}
	}
	c.noOtherState(r, "reduce.frame", "P", "P.reducedShare")

	r = c.run("party.HonestParty.PrepareReceive")
	x := r.one("Prepare", "prepare.recv")
	if x == nil {
		return
	}
	m := x.args[1]
	c.ob(x.args[0].args[1] == id, "prepare.recv", "mailbox", "receives from instance %s", brief(x.args[0].args[1]))
	e := r.env.with("m", m)
	e = e.with("d", e.T(`unm("protobuf.Prepare", m.Data)`))
	k := idx("k", mkInt(1), r.T("2*F+1"))
	e = e.with("k", k)
	n := 0
	seen := map[string]bool{}
	for _, w := range r.mem.jent {
		if w.barrier != "" || w.root.op == "alloc" || unsat(w.guard) || w.root == tP {
			continue
		}
		n++
		c.ob(w.root.String() == "P.Proof.PiContents" && len(w.path) == 2 && w.path[1].sym == "CBj", "prepare.stores", w.root.String(), "writes %s%s", w.root, pathStr(w.path))
		g := w.occurrence()
		if !seen[g.String()] {
			seen[g.String()] = true
			free := e.T("len(d.Commitments) >= 2*F+2")
			key := e.T("m.Data")
			if containsOp(g, "sha256") {
				key = mk("sha256", "", key)
			}
			c.tally(r, "prepare.quorum", "commitments", Tally{g: g, T: r.T("F+1"), valid: tTrue, sender: e.T("m.Sender"), exact: true, free: []*Term{free}, key: []*Term{key}})
			c.imp(g, free, "prepare.complete", "commitments", "taking over the commitments")
		}
		old := r.readPath(newMem(), "P.Proof.PiContents[k].CBj", e, tTrue)
		_ = old
		c.eq(r.readPath(r.mem, "P.Proof.PiContents[k].CBj", e, g), e.T("decG1(d.Commitments[k])"), g, "prepare.stores", "CBj[k]", "commitment to the sharing of index k")
	}
	c.ob(n > 0, "prepare.stores", "commitments", "no commitment is stored")
	for _, x := range r.effects {
		if x.kind == "fatal" && !unsat(x.pc) {
			c.ob(false, "prepare.total", x.name, "%s at %s is reachable when %s", x.name, r.where(x), short(x.pc))
		}
	}
	c.noOtherState(r, "prepare.frame", "P", "P.Proof.PiContents")
}

// verifiedList: the points are the elements of a list kept per commitment, to which only verified
// points are added.
func (c *Ck) verifiedList(r *Run, M, g, X, Y, j *Term, e Env, ok *Term) {
	L := M
	if L.op == "cat" {
		L = L.args[0]
		// the current message's point is the last element
	}
	if !c.ob(L.op == "mu", "reduce.points", "list of points", "the points come from %s", short(M)) {
		return
	}
	_, path := locParts(L.args[0])
	c.ob(len(path) == 1 && path[0] == e.T("d.C"), "reduce.points", "list of points", "the points come from the list %s, want the one of the commitment counted", brief(L.args[0]))
	li := r.loopOf(L)
	if !c.ob(li != nil, "reduce.points", "list of points", "no loop fills %s", brief(L)) {
		return
	}
	init := r.counterInit(li, L)
	c.ob(isAbsent(init) || mkLen(init).isInt(0), "reduce.points", "list of points", "starts as %s", short(init))
	h := raw("mu", L.sym, L.iv, []*Term{L.args[0], li.k}, nil)
	n := 0
	leaves := condLeaves(r.nextOf(li, h), tTrue)
	if M.op == "cat" { // the list as it is when the loop is left
		leaves = append(leaves, [2]*Term{g, M})
	}
	for _, l := range leaves {
		v := simp2(l[1], l[0])
		if v == h || sameTerm(v, h, l[0]) {
			continue
		}
		var el *Term
		switch {
		case v.op == "cat" && len(v.args) == 2 && v.args[0] == h && v.args[1].op == "list" && len(v.args[1].args) == 1:
			el = v.args[1].args[0]
		case v.op == "list" && len(v.args) == 1 && (implies(l[0], bNot(mk("has", "", h)))):
			el = v.args[0]
		}
		if !c.ob(el != nil, "reduce.points", "list of points", "changes to %s when %s", short(v), short(l[0])) {
			continue
		}
		n++
		c.imp(l[0], ok, "reduce.verified", "points", "adding a point")
		c.eq(simp2(subst1(X, mkSel(M, j), el), l[0]), e.T("asfr(m.Sender+1)"), l[0], "reduce.points", "points", "abscissa")
		c.eq(simp2(subst1(Y, mkSel(M, j), el), l[0]), e.T("fr32(d.V)"), l[0], "reduce.points", "points", "value")
	}
	c.ob(n > 0, "reduce.points", "list of points", "%s is never filled", brief(L))
}

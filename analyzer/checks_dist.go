package main

func init() {
	checks["P12"] = checkDistSend
	checks["P13"] = checkDistFinal
}

// checkDistSend: a member distributes points of its new reduced share, commits to it, and accepts
// another member's new commitment only if it is the old one plus the agreed refresh.
func checkDistSend(c *Ck) {
	r := c.run(proact)
	id := mkSym("arg0")
	k := idx("k", mkInt(0), r.T("F+1"))
	nv := simp2(r.final("P.reducedShare[k]", "k", k), tTrue)
	newShare := func(X *Term, what string) {
		if !c.ob(X != nil, "dist.share", what, "does not come from a polynomial") {
			return
		}
		c.eq(mkLen(X), r.T("F+1"), tTrue, "dist.share", what+": degree", "number of coefficients")
		c.eq(simp2(mkSel(X, k), tTrue), nv, tTrue, "dist.share", what, "coefficient of the polynomial used, against the new reduced share")
	}
	ss := r.sends("ShareDist")
	if c.ob(len(ss) == 1, "dist.send", "ShareDist", "%d ShareDist sends, want 1", len(ss)) {
		s := ss[0]
		c.ob(s.all && len(s.loops) == 0 && !s.next, "dist.send", "ShareDist: recipients", "sent to %s under %v, want one message to each member", short(s.dest), s.loops)
		c.eq(s.pc, tTrue, tTrue, "dist.send", "ShareDist: condition", "condition of sending")
		c.eq(mkFld(s.msg, "Id"), id, tTrue, "dist.send", "ShareDist: instance", "instance ID")
		c.eq(mkFld(s.msg, "Sender"), r.T("P.PID"), tTrue, "dist.send", "ShareDist: sender", "sender")
		if c.ob(s.payload != nil && structName(s.payload) == "protobuf.ShareDist" && s.dest != nil, "dist.payload", "ShareDist", "payload is %s", short(s.data)) {
			e := r.env.with("d", s.dest)
			x := e.T("asfr(d+1)")
			B := un(s.f("B"), "frbytes")
			W := un(s.f("WB"), "compress")
			if c.ob(B != nil && B.op == "eval" && B.args[1] == x, "dist.payload", "B", "is %s, want the value at the member's index", short(s.f("B"))) {
				newShare(B.args[0], "B")
			}
			if c.ob(W != nil && W.op == "proof" && W.args[1] == x, "dist.payload", "WB", "is %s, want the witness at the member's index", short(s.f("WB"))) {
				newShare(W.args[0], "WB")
			}
		}
	}
	cm, msg := r.rbcSend("newcommit.send", "NewCommit")
	if cm != nil {
		c.eq(cm.pc, tTrue, tTrue, "newcommit.send", "NewCommit", "condition of broadcasting")
		c.ob(len(cm.loops) == 0, "newcommit.send", "NewCommit: once", "broadcast in a loop")
		c.eq(mkFld(msg, "Id"), id, tTrue, "newcommit.send", "NewCommit: instance", "instance ID")
		c.eq(mkFld(msg, "Sender"), r.T("P.PID"), tTrue, "newcommit.send", "NewCommit: sender", "sender")
		c.eq(cm.args[1], r.T(`cat(id, "_2,", dec(P.PID+1))`, "id", id), tTrue, "newcommit.send", "NewCommit: broadcast instance", "instance of the reliable broadcast")
		D := un(mkFld(msg, "Data"), "compress")
		if c.ob(D != nil && D.op == "commit", "newcommit.payload", "NewCommit", "is %s, want a commitment", short(mkFld(msg, "Data"))) {
			newShare(D.args[0], "NewCommit")
		}
	}
	// verification
	rc, m := r.rbcRecv("newcommit.receive", "_2,")
	if rc == nil {
		return
	}
	sum := r.newSum(c, addc(m, 1))
	if sum == nil {
		return
	}
	n := 0
	for _, u := range r.effects {
		if u.kind != "send" || ctxID(u.ctx) != ctxID(rc.ctx) || unsat(u.pc) {
			continue
		}
		n++
		res := resultOf(u.pc, "RBCReceive", rc.args[0])
		site := "signal on " + brief(chanRoot(u.args[0]))
		if !c.ob(res != nil, "newcommit.verified", site, "given without a NewCommit message: %s", short(u.pc)) {
			continue
		}
		_, path := locParts(u.args[0])
		ok := false
		for _, p := range path {
			ok = ok || p == addc(m, 1) || p == m
		}
		walk(chanRoot(u.args[0]), func(x *Term) { ok = ok || coefOf(x, m) == 1 })
		c.ob(ok, "newcommit.verified", site+": member", "the signal %s is not the one of the member that sent the NewCommit", brief(u.args[0]))
		e, lo, hi := newCommitOK(r.env, res, sum, m)
		c.imp(u.pc, e.T("!(res == nil_)"), "newcommit.delivered", site, "accepting a new commitment")
		inr := r.T("m <= 2*F", "m", m)
		c.imp(bAnd(u.pc, inr), lo, "newcommit.verified", site+": stored index", "accepting a new commitment")
		c.imp(bAnd(u.pc, bNot(inr)), hi, "newcommit.verified", site+": interpolated index", "accepting a new commitment")
		all := bAnd(e.T("!(res == nil_)"), mkIte(inr, lo, hi))
		c.ob(implies(all, u.pc), "newcommit.accept", site, "a correct new commitment is not accepted: %s", short(simplify(u.pc, all)))
	}
	c.ob(n >= 1, "newcommit.verified", "NewCommit", "no signal is given after the verification of a NewCommit message")
	// the commitments kept for the next handoff
	j := idx("j", mkInt(1), r.T("2*F+1"))
	sj := r.newSum(c, j)
	if sj != nil {
		c.eq(r.final("P.Proof.PiContents[j].CBj", "j", j), r.T("addg1(P.Proof.PiContents[j].CBj, s)", "j", j, "s", sj), tTrue, "newcommit.kept", "CBj", "commitment kept for the next handoff")
	}
}

// newSum is the sum of the commitments of the agreed refresh at index i.
func (r *Run) newSum(c *Ck, i *Term) *Term {
	st := c.refreshed(r, "newcommit.sum")
	if st == nil {
		return nil
	}
	cq := r.commitSum(st, i)
	if !c.ob(len(cq) == 1, "newcommit.sum", "commitment sums", "%d sums of commitments are used, want 1", len(cq)) {
		return nil
	}
	return cq[0].total
}

// newCommitOK is the condition under which the NewCommit message res of member m (from 0) is accepted.
func newCommitOK(env Env, res, sum, m *Term) (Env, *Term, *Term) {
	e := env.with("res", res, "s", sum, "m", m)
	lo := e.T("addg1(P.Proof.PiContents[m+1].CBj, s) == decG1(res.Data)")
	hi := e.T("addg1(lincomb(seq(j, 2*F+1, P.Proof.PiContents[j+1].CBj), lagr(seq(j, 2*F+1, asfr(j+1)), asfr(m+1))), s) == decG1(res.Data)")
	return e, lo, hi
}

// checkDistFinal: the new full share is interpolated from 2t+1 verified points of different members,
// and the handoff ends only after 2t+1 members have reported success.
func checkDistFinal(c *Ck) {
	r := c.run(proact)
	id := mkSym("arg0")
	ss := r.sends("Success")
	if !c.ob(len(ss) == 1, "final.success", "Success", "%d Success sends, want 1", len(ss)) {
		return
	}
	s := ss[0]
	c.ob(s.all && !s.next, "final.success", "Success: recipients", "sent to %s, want all members", short(s.dest))
	c.eq(mkFld(s.msg, "Id"), id, s.pc, "final.success", "Success: instance", "instance ID")
	c.eq(mkFld(s.msg, "Sender"), r.T("P.PID"), s.pc, "final.success", "Success: sender", "sender")
	c.oncePer(r, s.e, s.pc, nil, "final.once", "Success")
	// the share
	t := idx("t", mkInt(0), r.T("2*F+1"))
	var M *Term
	n := 0
	for _, w := range r.ctxWrites {
		if w.barrier != "" || w.root != tP || len(w.path) == 0 || w.path[0].sym != "fullShare" || unsat(w.guard) {
			continue
		}
		n++
		site := "full share"
		v := simp2(w.val, w.guard)
		c.ob(ctxID(w.ctx) == ctxID(s.e.ctx) && w.seq < s.e.seq && implies(s.pc, w.guard), "final.before", site, "success is reported without the full share at %s", r.posStr(w.pos))
		if !c.ob(v.op == "interp" && len(w.path) == 1, "final.interpolated", site, "set to %s, want an interpolated polynomial", short(v)) {
			continue
		}
		at := &Effect{ctx: w.ctx, seq: w.seq, pc: w.guard, pos: w.pos}
		c.oncePer(r, at, w.guard, nil, "final.once", site)
		c.eq(v.args[0], r.T("2*F"), tTrue, "final.degree", site, "degree")
		X, Y := simp2(mkSel(v.args[1], t), w.guard), simp2(mkSel(v.args[2], t), w.guard)
		for _, x := range []*Term{X, Y} {
			walk(x, func(y *Term) {
				if y.op == "sel" && y.args[1] == t && (y.args[0].op == "cat" || isOld(y.args[0])) {
					M = y.args[0]
				}
			})
		}
		if !c.ob(M != nil, "final.points", site, "the points are %s, %s, want elements of the list of verified points", short(X), short(Y)) {
			return
		}
		c.ob(implies(w.guard, r.env.with("M", M).T("len(M) >= 2*F+1")), "final.enough", site, "interpolated from fewer than 2t+1 points: %s", short(w.guard))
		c.waitsNoLonger(r, M, "2*F+1", w.guard, "final.enough", site)
		L := M
		if L.op == "cat" {
			L = L.args[0]
		}
		if !c.ob(isOld(L), "final.points", site, "the points come from %s", short(M)) {
			return
		}
		// what the next handoff starts from
		wx, ww := r.goroutineValue(w, "P.witnessIndexes[t]", t), r.goroutineValue(w, "P.witness[t]", t)
		for _, a := range c.grows(r, L.args[0], w.ctx, "final.points", "points") {
			el := func(v *Term) *Term { return simp2(subst1(v, mkSel(M, t), a.elem), a.w.guard) }
			c.distPoint(r, a, el(X), el(Y), el(wx), el(ww))
		}
		// the decision that enough points are there is made on the list as it is when it is read
		c.ob(len(w.held) > 0, "final.once", site+": lock", "set without a lock")
	}
	c.ob(n == 1, "final.interpolated", "full share", "set at %d places, want 1", n)
	c.distReturn(r, s)
}

// goroutineValue is what location path holds after the critical section that makes write w.
func (r *Run) goroutineValue(w *Entry, path string, t *Term) *Term {
	m := r.writerMem(w.ctx, 1<<30, nil)
	return simp2(r.readPath(m, path, r.env.with("t", t), w.guard), w.guard)
}

// distPoint: one point of the new full share.
func (c *Ck) distPoint(r *Run, a listAdd, x, y, wx, ww *Term) {
	all := mk("list", "", x, y, wx, ww, a.w.guard)
	m := r.message(all, "ShareDist")
	if !c.ob(m != nil, "final.message", "points", "a point is taken without a ShareDist message: %s", short(a.w.guard)) {
		return
	}
	at := &Effect{ctx: a.w.ctx, seq: a.w.seq, pc: a.w.guard, pos: a.w.pos}
	c.oncePer(r, at, a.w.guard, mkFld(m, "Sender"), "final.once-each", "points")
	nonneg[mkFld(m, "Sender")] = true
	e := r.env.with("m", m)
	e = e.with("d", e.T(`unm("protobuf.ShareDist", m.Data)`))
	who := e.T("m.Sender")
	done := false
	for _, sg := range r.signalsBefore(at) {
		res := resultOf(sg.cond, "RBCReceive", mkStr("_2,"))
		if res == nil || !r.callsIn(sg.e.ctx, "RBCReceive") {
			continue
		}
		done = true
		c.ob(containsTerm(res, e.with("id", mkSym("arg0")).T(`cat(id, "_2,", dec(m.Sender+1))`)), "final.commitment", "points: member", "the commitment is that of %s, want the sender's", brief(res))
		v := c.afterSignal(r, all, sg, "final.commitment", "points")
		c.ob(!hasShared(v) || !hasShared(v.args[4]), "final.commitment", "points: published", "%s is read without waiting for it", short(v))
		g := bAnd(v.args[4], sg.cond)
		e = e.with("res", res)
		ok := e.T("kzg(decG1(res.Data), decG1(d.WB), asfr(P.PID+1), fr32(d.B))")
		c.imp(g, ok, "final.verified", "points", "using a point")
		c.eq(v.args[0], e.T("asfr(m.Sender+1)"), g, "final.points", "points", "abscissa")
		c.eq(v.args[1], e.T("fr32(d.B)"), g, "final.points", "points", "value")
		c.eq(v.args[2], e.T("asfr(m.Sender+1)"), g, "final.kept", "witness index", "index of the witness kept for the next handoff")
		c.eq(v.args[3], e.T("decG1(d.WB)"), g, "final.kept", "witness", "witness kept for the next handoff")
		// a verified point is used
		rest := simplify(v.args[4], bAnd(ok, sg.cond))
		for _, x := range atomsOf(rest) {
			c.ob(isFlagAtom(x), "final.accept", "points", "a verified point is not used unless %s", short(rest))
		}
		break
	}
	c.ob(done, "final.commitment", "points", "a point of member %s is used without waiting for its new commitment", brief(who))
}

// distReturn: the end of the handoff.
func (c *Ck) distReturn(r *Run, succ *SendOp) {
	x := r.one("Success", "final.quorum")
	if x == nil {
		return
	}
	m := x.args[1]
	c.ob(x.args[0].args[1] == mkSym("arg0"), "final.quorum", "mailbox", "receives from instance %s", brief(x.args[0].args[1]))
	var ret *Effect
	for _, e := range r.effects {
		if e.kind == "return" && ctxID(e.ctx) == "main" {
			ret = e
		}
	}
	if !c.ob(ret != nil, "final.return", "return", "the handoff never returns") {
		return
	}
	quorum, own := false, false
	for _, sg := range r.signalsBefore(ret) {
		if ctxID(sg.e.ctx) == ctxID(x.ctx) {
			quorum = true
			c.tally(r, "final.quorum", "end of the handoff", Tally{g: sg.e.pc, T: r.T("2*F+1"), valid: tTrue, sender: mkFld(m, "Sender"), exact: true})
		}
		if ctxID(sg.e.ctx) == ctxID(succ.e.ctx) && sg.e.seq > succ.e.seq {
			own = true
		}
	}
	if ctxID(x.ctx) == "main" {
		quorum = true
		c.tally(r, "final.quorum", "end of the handoff", Tally{g: ret.pc, T: r.T("2*F+1"), valid: tTrue, sender: mkFld(m, "Sender"), exact: true})
	}
	c.ob(quorum, "final.return", "return", "the handoff returns without waiting for the reports of success")
	c.ob(own, "final.return", "return: own share", "the handoff may return before the member has its own full share")
}

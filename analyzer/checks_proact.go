package main

func init() {
	checks["P05"] = checkProactSend
	checks["P06"] = checkCommitVerify
	checks["P07"] = checkReshareVote
	checks["P08"] = checkRecover
	checks["P09"] = checkAgreement
}

const proact = "party.HonestParty.ProactivizeAndShareDist"

// rbcSend is the reliable broadcast of one message type by a protocol.
func (r *Run) rbcSend(rule, typ string) (*Effect, *Term) {
	var hit *Effect
	n := 0
	for _, e := range r.calls("RBCSend") {
		if mkFld(e.args[0], "Type") == mkStr(typ) {
			n++
			hit = e
		}
	}
	if !r.ck.ob(n == 1, rule, typ, "%d reliable broadcasts of %s, want 1", n, typ) {
		return nil, nil
	}
	return hit, simp2(hit.args[0], hit.pc)
}

// checkProactSend: the polynomials a member proposes for the next sharing and what it sends of them.
func checkProactSend(c *Ck) {
	r := c.run(proact)
	id := mkSym("arg0")
	e := r.env.with("id", id)
	cm, msg := r.rbcSend("commit.send", "Commit")
	if cm == nil {
		return
	}
	c.eq(cm.pc, tTrue, tTrue, "commit.send", "Commit", "condition of broadcasting")
	c.ob(len(cm.loops) == 0, "commit.send", "Commit: once", "broadcast in a loop")
	c.eq(mkFld(msg, "Id"), id, tTrue, "commit.send", "Commit: instance", "instance ID")
	c.eq(mkFld(msg, "Sender"), r.T("P.PID"), tTrue, "commit.send", "Commit: sender", "sender")
	c.eq(cm.args[1], e.T(`cat(id, "_1,", dec(P.PID+1))`), tTrue, "commit.send", "Commit: broadcast instance", "instance of the reliable broadcast")
	pay := un(mkFld(msg, "Data"), "marshal")
	if !c.ob(pay != nil && structName(pay) == "protobuf.Commit", "commit.payload", "Commit", "payload is %s", short(mkFld(msg, "Data"))) {
		return
	}
	j := idx("j", mkInt(0), e.T("2*F+1")) // polynomial j+1
	l := idx("l", mkInt(1), tF)           // coefficient
	e = e.with("j", j, "l", l, "pay", pay)
	e = e.with("pj", e.T("pay.Pi[j]"))
	c.eq(e.T("len(pay.Pi)"), e.T("2*F+1"), tTrue, "commit.payload", "Commit: number of polynomials", "entries")
	Q := un(un(e.T("pj.CBj"), "compress"), "commit")
	Z := un(un(e.T("pj.CZj"), "compress"), "commit")
	if !c.ob(Q != nil && Z != nil, "commit.payload", "Commit: commitments", "CBj is %s, CZj is %s, want commitments", short(e.T("pj.CBj")), short(e.T("pj.CZj"))) {
		return
	}
	e = e.with("Q", Q, "Z", Z)
	c.eq(mkLen(Q), e.T("F+1"), tTrue, "proposal.degree", "Q", "number of coefficients of Q_j (degree t)")
	c.eq(mkLen(Z), e.T("F+1"), tTrue, "proposal.degree", "Z", "number of coefficients of Z_j")
	ql := simp2(e.T("Q[l]"), tTrue)
	c.randFresh(ql, "proposal.random", "Q", "coefficient l of Q_j", j, l)
	c.eq(e.T("Z[l]"), ql, tTrue, "proposal.mask", "Z", "coefficient l of Z_j")
	c.eq(e.T("Z[0]"), tFr0, tTrue, "proposal.mask", "Z: constant term", "constant term of Z_j")
	q0 := simp2(e.T("Q[0]"), tTrue)
	pf := un(q0, "eval")
	if c.ob(pf != nil && q0.args[1] == e.T("asfr(j+1)"), "proposal.zero-sharing", "Q: constant term", "Q_j(0) is %s, want F(j)", short(q0)) {
		c.eq(mkLen(pf), e.T("2*F+1"), tTrue, "proposal.degree", "F", "number of coefficients of F (degree 2t)")
		c.eq(simp2(mkSel(pf, mkInt(0)), tTrue), tFr0, tTrue, "proposal.zero-sharing", "F", "F(0): the shared secret must not change")
		m := idx("m", mkInt(1), e.T("2*F"))
		fm := simp2(mkSel(pf, m), tTrue)
		c.randFresh(fm, "proposal.random", "F", "coefficient m of F", m)
		if ql.op == "rand" && fm.op == "rand" {
			c.ob(randSite(ql) != randSite(fm), "proposal.random", "F and Q", "drawn at the same site %s", randSite(ql))
		}
	}
	for _, w := range []struct{ f, want string }{
		{"pj.J", "j+1"},
		{"pj.WZ0", "compress(proof(Z, fr0))"},
		{"pj.GFj", "compress(mulg1(gen, Q[0]))"},
	} {
		c.eq(e.T(w.f), e.T(w.want), tTrue, "commit.payload", w.f, "Commit payload")
	}
	// every member gets its own points of the same polynomials
	ss := r.sends("Reshare")
	if !c.ob(len(ss) == 1, "reshare.send", "Reshare", "%d Reshare sends, want 1", len(ss)) {
		return
	}
	s := ss[0]
	c.ob(s.all && len(s.loops) == 0 && !s.next, "reshare.send", "Reshare: recipients", "sent to %s under %v, want one message to each member of the committee", short(s.dest), s.loops)
	c.eq(s.pc, tTrue, tTrue, "reshare.send", "Reshare: condition", "condition of sending")
	c.eq(mkFld(s.msg, "Id"), id, tTrue, "reshare.send", "Reshare: instance", "instance ID")
	c.eq(mkFld(s.msg, "Sender"), r.T("P.PID"), tTrue, "reshare.send", "Reshare: sender", "sender")
	if !c.ob(s.payload != nil && structName(s.payload) == "protobuf.Reshare" && s.dest != nil, "reshare.payload", "Reshare", "payload is %s", short(s.data)) {
		return
	}
	e = e.with("rp", s.payload, "x", e.with("d", s.dest).T("asfr(d+1)"))
	c.eq(e.T("len(rp.Qk)"), e.T("2*F+1"), tTrue, "reshare.payload", "Qk", "number of points")
	c.eq(e.T("len(rp.WQk)"), e.T("2*F+1"), tTrue, "reshare.payload", "WQk", "number of witnesses")
	c.eq(e.T("rp.Qk[j]"), e.T("frbytes(eval(Q, x))"), tTrue, "reshare.payload", "Qk[j]", "point for this member")
	c.eq(e.T("rp.WQk[j]"), e.T("compress(proof(Q, x))"), tTrue, "reshare.payload", "WQk[j]", "witness for this member")
}

// rbcRecv finds the reception of the reliable broadcasts of all members under the given label.
func (r *Run) rbcRecv(rule, label string) (*Effect, *Term) {
	id := mkSym("arg0")
	for _, e := range r.calls("RBCReceive") {
		if len(e.loops) == 0 {
			continue
		}
		k := e.loops[len(e.loops)-1]
		for off := int64(0); off <= 1; off++ {
			want := r.env.with("id", id, "k", k.Sym).with("l", mkStr(label)).T("cat(id, l, dec(k+1))")
			if off == 1 {
				want = r.env.with("id", id, "k", k.Sym).with("l", mkStr(label)).T("cat(id, l, dec(k))")
			}
			if e.args[0] == want {
				r.ck.ob(off == 0 && k.N == r.T("3*F+1"), rule, "RBC "+label, "received for members from %d to %s, want one for each of the N members", off, short(k.N))
				return e, k.Sym
			}
		}
	}
	r.ck.ob(false, rule, "RBC "+label, "no reception of the broadcasts %s1 ... %sN", label, label)
	return nil, nil
}

// resultOf finds the value returned by a boundary call in t.
func resultOf(t *Term, fn string, arg0 *Term) *Term {
	var out *Term
	walk(t, func(x *Term) {
		if x.op == "res" && x.sym == fn && len(x.args) > 0 && x.args[len(x.args)-1] != nil && containsTerm(x, arg0) {
			out = x
		}
	})
	return out
}

// commitOK is the condition under which the Commit message res is accepted.
func commitOK(e Env, res *Term) (Env, *Term, []struct{ rule, src string }) {
	e = e.with("m", res)
	e = e.with("c", e.T(`unm("protobuf.Commit", m.Data).Pi`))
	conds := []struct{ rule, src string }{
		{"commit.delivered", `!(m == nil_)`},
		{"commit.complete", `len(c) >= 2*F+1`},
		{"commit.zero-sharing", `lincomb(seq(j, 2*F+1, decG1(c[j].GFj)), lagr(seq(j, 2*F+1, asfr(j+1)), fr0)) == g0`},
		{"commit.zero", `forall(j, 2*F+1, kzg(decG1(c[j].CZj), decG1(c[j].WZ0), fr0, fr0))`},
		{"commit.sum", `forall(j, 2*F+1, addg1(decG1(c[j].GFj), decG1(c[j].CZj)) == decG1(c[j].CBj))`},
	}
	all := tTrue
	for _, k := range conds {
		all = bAnd(all, e.T(k.src))
	}
	return e, all, conds
}

// commitValue is the specification of the commitment to Q_k of a member whose Commit was accepted.
func commitValue(e Env, k *Term) *Term {
	e = e.with("k", k)
	return e.T(`ite(k <= 2*F+1, decG1(c[k-1].CBj), lincomb(seq(j, 2*F+1, decG1(c[j].CBj)), lagr(seq(j, 2*F+1, asfr(j+1)), asfr(k))))`)
}

// checkCommitVerify: another member's proposal is used only after its commitments have been verified.
func checkCommitVerify(c *Ck) {
	r := c.run(proact)
	rc, k := r.rbcRecv("commit.receive", "_1,")
	if rc == nil {
		return
	}
	n := 0
	var uses []*Effect
	for _, e := range r.effects {
		if e.kind == "send" && ctxID(e.ctx) == ctxID(rc.ctx) && !unsat(e.pc) {
			n++
			uses = append(uses, e)
		}
	}
	c.ob(n >= 1, "commit.release", "Commit", "no signal is given after the verification of a Commit message")
	for _, u := range uses {
		res := resultOf(u.pc, "RBCReceive", rc.args[0])
		if !c.ob(res != nil, "commit.release", "signal at "+brief(u.args[0]), "given without a Commit message: %s", short(u.pc)) {
			continue
		}
		e, all, conds := commitOK(r.env, res)
		site := "signal on " + brief(chanRoot(u.args[0]))
		for _, cd := range conds {
			c.imp(u.pc, e.T(cd.src), cd.rule, site, "release of a proposal")
		}
		// and a correct proposal is always released
		c.ob(implies(all, u.pc), "commit.accept", site, "a verified Commit message is not released: %s", short(simplify(u.pc, all)))
		_, path := locParts(u.args[0])
		ok := false
		for _, p := range path {
			ok = ok || coefOf(p, k) == 1
		}
		walk(chanRoot(u.args[0]), func(x *Term) { ok = ok || coefOf(x, k) == 1 })
		c.ob(ok, "commit.release", site+": member", "the signal %s is not the one of the member that sent the Commit", brief(u.args[0]))
	}
}

func chanRoot(t *Term) *Term { a, _ := locParts(t); return a }

// usesCommit resolves the commitments of member who read in condition t: they are the ones of its
// verified Commit message, because the reader waited for the release.
func (c *Ck) usesCommit(r *Run, at *Effect, t, who *Term, rule, site string) (*Term, *Term, Env) {
	if !hasShared(t) {
		// the commitments come directly from a message
		res := resultOf(t, "RBCReceive", mkStr("_1,"))
		if res == nil {
			res = mkSym("?")
		}
		e, _, _ := commitOK(r.env, res)
		return t, tTrue, e
	}
	var cands []signal
	for _, sg := range r.signalsBefore(at) {
		res := resultOf(sg.cond, "RBCReceive", mkStr("_1,"))
		if res == nil || ctxID(sg.e.ctx) == ctxID(at.ctx) || !r.callsIn(sg.e.ctx, "RBCReceive") {
			continue
		}
		want := r.env.with("w", who, "id", mkSym("arg0")).T(`cat(id, "_1,", dec(w+1))`)
		if containsTerm(res, want) {
			cands = append([]signal{sg}, cands...)
		} else {
			cands = append(cands, sg)
		}
	}
	for _, sg := range cands {
		res := resultOf(sg.cond, "RBCReceive", mkStr("_1,"))
		nt := c.afterSignal(r, t, sg, rule, site)
		e, all, _ := commitOK(r.env, res)
		c.ob(implies(sg.cond, all), rule, site+": release", "released without verification: %s", short(sg.cond))
		want := e.with("w", who, "id", mkSym("arg0")).T(`cat(id, "_1,", dec(w+1))`)
		c.ob(containsTerm(res, want), rule, site+": member", "the commitments are those of %s, want those of the sender %s", brief(res), brief(who))
		if hasShared(nt) {
			c.ob(false, rule, site, "%s is read without waiting for it", short(nt))
		}
		return nt, sg.cond, e
	}
	c.ob(false, rule, site, "commitments are used without waiting for their verification: %s", short(t))
	return t, tTrue, nil
}

// callsIn: goroutine ctx makes the boundary call itself.
func (r *Run) callsIn(ctx *Ctx, name string) bool {
	for _, x := range r.calls(name) {
		if ctxID(x.ctx) == ctxID(ctx) {
			return true
		}
	}
	return false
}

// checkReshareVote: a member endorses another one's proposal, and passes its points on, only if all
// the points it was given fit the verified commitments.
func checkReshareVote(c *Ck) {
	r := c.run(proact)
	ss := r.sends("Recover")
	if !c.ob(len(ss) == 1, "endorse.send", "Recover", "%d Recover sends, want 1", len(ss)) {
		return
	}
	s := ss[0]
	id := mkSym("arg0")
	c.ob(s.all && len(s.loops) <= 1 && !s.next, "endorse.send", "Recover: recipients", "sent to %s under %v, want one message to each member", short(s.dest), s.loops)
	c.eq(mkFld(s.msg, "Id"), id, s.pc, "endorse.send", "Recover: instance", "instance ID")
	c.eq(mkFld(s.msg, "Sender"), r.T("P.PID"), s.pc, "endorse.send", "Recover: sender", "sender")
	if !c.ob(s.payload != nil && structName(s.payload) == "protobuf.Recover" && s.dest != nil, "endorse.payload", "Recover", "payload is %s", short(s.data)) {
		return
	}
	m := r.message(s.pc, "Reshare")
	if !c.ob(m != nil, "endorse.message", "Recover", "sent without a Reshare message: %s", short(s.pc)) {
		return
	}
	who := mkFld(m, "Sender")
	nonneg[who] = true
	pc, cond, e := c.usesCommit(r, s.e, s.pc, who, "endorse.commitments", "Recover")
	if e == nil {
		return
	}
	e = e.with("rm", m, "who", who, "dest", s.dest, "pay", s.payload)
	e = e.with("d", e.T(`unm("protobuf.Reshare", rm.Data)`))
	pc = bAnd(pc, cond)
	c.imp(pc, e.T(`len(d.Qk) >= 2*F+1 && len(d.WQk) >= 2*F+1`), "endorse.complete", "Recover", "endorsing")
	c.imp(pc, e.T(`forall(j, 2*F+1, kzg(decG1(c[j].CBj), decG1(d.WQk[j]), asfr(P.PID+1), fr32(d.Qk[j])))`), "endorse.all-points", "Recover", "endorsing")
	// a correct proposal is endorsed
	ok := e.T(`len(d.Qk) >= 2*F+1 && len(d.WQk) >= 2*F+1 && forall(j, 2*F+1, kzg(decG1(c[j].CBj), decG1(d.WQk[j]), asfr(P.PID+1), fr32(d.Qk[j])))`)
	rest := simplify(pc, bAnd(ok, cond))
	for _, a := range atomsOf(rest) {
		c.ob(isFlagAtom(a) && !containsTerm(a, mkStr("protobuf.Reshare")), "endorse.accept", "Recover", "a verified Reshare message is not endorsed unless %s", short(rest))
	}
	// what is passed on to member dest
	v := e.T(`seq(j, 2*F+1, fr32(d.Qk[j]))`)
	w := e.T(`seq(j, 2*F+1, decG1(d.WQk[j]))`)
	e = e.with("v", v, "w", w)
	lg := e.T(`lagr(seq(j, 2*F+1, asfr(j+1)), asfr(dest+1))`)
	e = e.with("lg", lg)
	c.eq(e.T("pay.Index"), e.T("who+1"), s.pc, "endorse.payload", "Index", "endorsed member")
	c.eq(e.T("pay.SigShare"), e.T("tsign(P.SigSK, dec(who+1))"), s.pc, "endorse.payload", "SigShare", "signature share")
	c.eq(e.T("pay.V"), e.T("ite(dest <= 2*F, frbytes(v[dest]), frbytes(lincombfr(v, lg)))"), s.pc, "endorse.payload", "V", "point for member dest")
	c.eq(e.T("pay.W"), e.T("ite(dest <= 2*F, compress(w[dest]), compress(lincomb(w, lg)))"), s.pc, "endorse.payload", "W", "witness for member dest")
	c.oncePerSender(r, s.e, m, "Reshare", "endorse.once")
}

// message is the received message of type typ the condition is about (possibly the survivor of a
// loop that skips duplicates).
func (r *Run) message(t *Term, typ string) *Term {
	var out *Term
	walk(t, func(x *Term) {
		if out != nil {
			return
		}
		if x.op == "recv" && len(x.args) > 0 && x.args[0].op == "mailbox" && x.args[0].args[0] == mkStr(typ) {
			out = x
		}
		if x.op == "mu" && r.isMsgMu(x, typ) {
			out = x
		}
	})
	// prefer a loop-carried message over the one in a skipped iteration
	walk(t, func(x *Term) {
		if x.op == "mu" && r.isMsgMu(x, typ) {
			out = x
		}
	})
	return out
}

// isMsgMu: a variable that holds, in every iteration, a message received from the mailbox of typ.
func (r *Run) isMsgMu(x *Term, typ string) bool {
	li := r.loopOf(x)
	if li == nil {
		return false
	}
	isMsg := func(t *Term) bool {
		return t.op == "recv" && len(t.args) > 0 && t.args[0].op == "mailbox" && t.args[0].args[0] == mkStr(typ) && t.args[0].args[1] == mkSym("arg0")
	}
	init := r.counterInit(li, x)
	for _, l := range condLeaves(init, tTrue) {
		if !isMsg(l[1]) {
			return false
		}
	}
	for _, l := range condLeaves(r.nextOf(li, x), tTrue) {
		if l[1] != x && !isMsg(l[1]) {
			return false
		}
	}
	return true
}

// oncePerSender: the action at e handles at most one message per sender.
func (c *Ck) oncePerSender(r *Run, e *Effect, m *Term, typ, rule string) {
	c.oncePer(r, e, e.pc, mkFld(m, "Sender"), rule, typ)
}

// oncePer: the action at e, performed under cond, happens at most once for each value of key: a
// flag of the key is tested and set in one critical section, or by the one goroutine that acts.
func (c *Ck) oncePer(r *Run, e *Effect, cond, key *Term, rule, site string) {
	what := ""
	if key != nil {
		what = " for the same " + brief(key)
	}
	why := "no flag is tested"
	for _, a := range atomsOf(cond) {
		if a.op == "ge0" || a.op == "eq0" || a.op == "eq" || key != nil && !containsTerm(a, key) || !implies(cond, bNot(a)) {
			continue
		}
		var root *Term
		var path []*Term
		walk(a, func(x *Term) {
			if x.op == "mu" || x.op == "shared" {
				if rt, p := locParts(x.args[0]); root == nil && (key == nil || len(p) > 0 && containsTerm(x, key)) {
					root, path = rt, p
				}
			}
		})
		if root == nil || key == nil && perInstance(root, path, e.ctx) {
			continue
		}
		if len(r.otherWriters(root, e.ctx)) == 0 {
			us := mus(a)
			for _, u := range us {
				if li := r.loopOf(u); li != nil && key != nil && r.senderFlag(li, cond, key) != nil {
					c.ob(true, rule, site, "")
					return
				}
			}
			why = "the flag " + brief(a) + " is not set each time"
			continue
		}
		why = r.testAndSet(e, cond, root, path)
		if why == "" {
			c.ob(true, rule, site, "")
			return
		}
	}
	c.ob(false, rule, site, "may happen twice%s: %s", what, why)
}

// perInstance: every instance of the goroutine has its own such location.
func perInstance(root *Term, path []*Term, ctx *Ctx) bool {
	for _, q := range ctx.vars {
		if containsTerm(root, q.Sym) {
			return true
		}
		for _, p := range path {
			if containsTerm(p, q.Sym) {
				return true
			}
		}
	}
	return false
}

// otherWriters are the writes to root by other goroutines than (one instance of) ctx.
func (r *Run) otherWriters(root *Term, ctx *Ctx) []*Entry {
	var out []*Entry
	local := r.localTo(root, ctx)
	for _, w := range r.ctxWrites {
		if w.barrier == "" && sameRootKind(w.root, root) && (ctxID(w.ctx) != ctxID(ctx) || len(ctx.vars) > 0 && !local) {
			out = append(out, w)
		}
	}
	return out
}

// testAndSet explains why the flag is not tested and set in one critical section ("" if it is).
func (r *Run) testAndSet(e *Effect, cond, root *Term, path []*Term) string {
	for _, w := range r.ctxWrites {
		if w.barrier == "" && sameRootKind(w.root, root) && !hasH(w.path) && !isSize(w.path) && w.val != tTrue && !unsat(w.guard) {
			return "the flag is reset at " + r.posStr(w.pos)
		}
	}
	why := "the flag is never set before acting"
	for _, w := range r.ctxWrites {
		if w.barrier != "" || !sameRootKind(w.root, root) || hasH(w.path) || isSize(w.path) || ctxID(w.ctx) != ctxID(e.ctx) || len(w.path) != len(path) {
			continue
		}
		same := implies(cond, w.guard)
		for i := range path {
			same = same && sameTerm(path[i], w.path[i], cond)
		}
		if !same {
			continue
		}
		why = "the flag is not tested in the critical section that sets it at " + r.posStr(w.pos)
		for _, x := range r.effects {
			if x.kind != "read" || ctxID(x.ctx) != ctxID(e.ctx) {
				continue
			}
			xr, xp := locParts(x.args[0])
			if !sameRootKind(xr, root) || len(xp) != len(path) {
				continue
			}
			ok := true
			for i := range path {
				ok = ok && sameTerm(path[i], xp[i], cond)
			}
			for _, l := range w.held {
				if ok && contains2(x.held, l) && r.sameSession(e.ctx, l, x.seq, w.seq, cond) {
					return ""
				}
			}
		}
	}
	return why
}

func contains2(l []*Term, x *Term) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// sameSession: lock is not released between the two points of the goroutine.
func (r *Run) sameSession(ctx *Ctx, lock *Term, a, b int, cond *Term) bool {
	if a > b {
		a, b = b, a
	}
	for _, x := range r.effects {
		if x.kind == "unlock" && ctxID(x.ctx) == ctxID(ctx) && x.args[0] == lock && x.seq > a && x.seq < b && !unsat(bAnd(x.pc, cond)) {
			return false
		}
	}
	return true
}

// received replaces what is received from a channel inside the process by what the only send to it sends.
func (c *Ck) received(r *Run, t *Term, rule, site string) (*Term, *Term) {
	cond := tTrue
	for n := 0; n < 4; n++ {
		var x *Term
		walk(t, func(y *Term) {
			if y.op == "recv" && len(y.args) > 0 && y.args[0].op != "mailbox" && !onChain(y) {
				x = y
			}
		})
		if x == nil {
			return t, cond
		}
		ss := r.signalsOn(x.args[0])
		var vals []signal
		for _, s := range ss {
			if s.e.kind == "send" {
				vals = append(vals, s)
			}
		}
		if !c.ob(len(vals) == 1, rule, site+": source", "%d sends to %s, want 1", len(vals), brief(x.args[0])) {
			return t, cond
		}
		v := subst(vals[0].e.args[1], vals[0].sub)
		t = subst1(t, x, v)
		cond = bAnd(subst1(cond, x, v), vals[0].cond)
		t = simp2(t, cond)
	}
	return t, cond
}

// onChain: a receive from a channel that is not of this process.
func onChain(y *Term) bool { rt, _ := locParts(y.args[0]); return rt.op != "alloc" }

// element of a list built by appending: the value written is the old list with one more element.
type listAdd struct {
	w    *Entry
	elem *Term
	ren  map[*Term]*Term
}

// grows checks that the list at loc starts empty and only ever grows by single elements, each update
// being made in one critical section, and returns the updates.
func (c *Ck) grows(r *Run, loc *Term, ctx *Ctx, rule, site string) []listAdd {
	root, path := locParts(loc)
	var out []listAdd
	var common []*Term
	first := true
	m := newMem()
	for _, e := range r.mem.jent {
		if e.barrier == "" && e.seq < ctx.spawnSeq {
			m.push(copyEntry(e))
		}
	}
	init := m.readAt(root, path, nil, tTrue)
	for _, l := range condLeaves(init, tTrue) {
		c.ob(mkLen(l[1]).isInt(0) || isAbsent(l[1]), rule, site+": list", "starts as %s", short(l[1]))
	}
	ws := append([]*Entry{}, r.ctxWrites...)
	for _, e := range r.mem.jent {
		if e.barrier == "" && sameRootKind(e.root, root) && e.seq > ctx.spawnSeq && ctxID(e.ctx) == "main" {
			c.ob(false, rule, site+": list", "also written at %s", r.posStr(e.pos))
		}
	}
	for _, w := range ws {
		if w.barrier != "" || !sameRootKind(w.root, root) || hasH(w.path) || isSize(w.path) || len(w.path) > len(path) || unsat(w.guard) {
			continue
		}
		a, ren := anyInstance(w)
		h, ok := a.match(root, path)
		if !ok || unsat(h.cond) {
			continue
		}
		wl := mkLoc(w.root, w.path...)
		var el *Term
		v := w.val
		if v.op == "cat" && len(v.args) == 2 && (v.args[0].op == "mu" || v.args[0].op == "shared") && v.args[0].args[0] == wl && v.args[1].op == "list" && len(v.args[1].args) == 1 {
			el = v.args[1].args[0]
		}
		if !c.ob(el != nil, rule, site+": list", "replaced at %s by %s, not extended by one element", r.posStr(w.pos), short(v)) {
			continue
		}
		if first {
			common, first = w.held, false
		} else {
			var cm []*Term
			for _, l := range common {
				if contains2(w.held, l) {
					cm = append(cm, l)
				}
			}
			common = cm
		}
		if len(r.otherWriters(root, w.ctx)) > 0 && len(path) == len(w.path) && (len(ren) == 0 || !keyed(w)) {
			c.ob(r.atomicUpdate(w), rule, site+": list", "extended at %s without a lock that is held since the list was read", r.posStr(w.pos))
		}
		out = append(out, listAdd{w: w, elem: el, ren: ren})
	}
	if len(out) > 1 {
		c.ob(len(common) > 0, rule, site+": list", "extended at several places without a common lock")
	}
	c.ob(len(out) > 0, rule, site+": list", "%s is never filled", brief(loc))
	return out
}

// keyed: each instance of the goroutine writes its own location.
func keyed(w *Entry) bool {
	for _, q := range w.ctx.vars {
		hit := false
		for _, p := range w.path {
			hit = hit || coefOf(p, q.Sym) != 0
		}
		if !hit {
			return false
		}
	}
	return len(w.ctx.vars) > 0
}

// atomicUpdate: the location is read and written back under one lock.
func (r *Run) atomicUpdate(w *Entry) bool {
	wl := mkLoc(w.root, w.path...)
	for _, x := range r.effects {
		if x.kind != "read" || ctxID(x.ctx) != ctxID(w.ctx) || x.seq > w.seq || x.args[0] != wl {
			continue
		}
		for _, l := range w.held {
			if contains2(x.held, l) && r.sameSession(w.ctx, l, x.seq, w.seq, w.guard) {
				return true
			}
		}
	}
	return false
}

// refreshStep: what the refresh adds to coefficient k of the share for agreed member n.
type refreshStep struct {
	li        *loopInfo
	add, k, n *Term // what is added to coefficient k; number of members
}

// refreshed finds the accumulation that is added to the reduced share.
func (c *Ck) refreshed(r *Run, rule string) *refreshStep {
	k := idx("k", mkInt(0), r.T("F+1"))
	nv := simp2(r.final("P.reducedShare[k]", "k", k), tTrue)
	old := mkSel(mkFld(tP, "reducedShare"), k)
	var mu *Term
	if nv.op == "addfr" && len(nv.args) == 2 {
		for i, a := range nv.args {
			if nv.args[1-i] != old {
				continue
			}
			if a.op == "mu" {
				mu = a
			}
			if a.op == "sumfr" { // solved
				if li := r.loopOver(a.args[0]); li != nil {
					return &refreshStep{li: li, k: k, n: a.args[0], add: instBinder(a, li.k)[0]}
				}
			}
		}
	}
	if !c.ob(mu != nil, rule, "new reduced share", "coefficient k is %s, want the old one plus an accumulated sum", short(nv)) {
		return nil
	}
	li := r.loopOf(mu)
	st := &refreshStep{li: li, k: k, n: mu.args[1]}
	mu = raw("mu", li.id, 0, []*Term{mu.args[0], li.k}, nil)
	init := r.counterInit(li, mu)
	c.ob(init == tFr0 || isAbsent(init), rule, "sum of the refresh polynomials", "starts at %s", short(init))
	nx := simp2(r.nextOf(li, mu), tTrue)
	if nx.op == "addfr" {
		for i, a := range nx.args {
			if a == mu {
				st.add = nx.args[1-i]
			}
		}
	}
	if !c.ob(st.add != nil, rule, "sum of the refresh polynomials", "becomes %s, want one more polynomial added", short(nx)) {
		return nil
	}
	return st
}

// loopOver is the main flow's loop with that many iterations; one that waits for a signal if there
// are several.
func (r *Run) loopOver(n *Term) *loopInfo {
	var best *loopInfo
	for _, id := range sortedKeys(r.loopInfos) {
		li := r.loopInfos[id]
		if li.n != n || ctxID(li.ctx) != "main" {
			continue
		}
		if sig, _ := r.waitInLoop(li); best == nil || sig != nil {
			best = li
		}
	}
	return best
}

// agreed is the list of members the agreement selected.
func (r *Run) agreed() (*Effect, *Term) {
	cs := r.calls("MainProcess")
	if len(cs) != 1 {
		return nil, nil
	}
	return cs[0], nil
}

// waitInLoop is the signal the main flow waits for in each iteration of a loop.
func (r *Run) waitInLoop(li *loopInfo) (*signal, *Effect) {
	var sig *signal
	var wait *Effect
	for _, e := range r.effects {
		if e.kind != "recv" || ctxID(e.ctx) != "main" || len(e.loops) == 0 || e.loops[len(e.loops)-1].Sym != li.k || !implies(tTrue, e.pc) {
			continue
		}
		ss := r.signalsOn(e.args[0])
		if len(ss) == 1 {
			sig, wait = &ss[0], e
		}
	}
	return sig, wait
}

// checkRecover: a polynomial of an agreed member is recovered from t+1 points that fit its verified
// commitment, each from a different member.
func checkRecover(c *Ck) {
	r := c.run(proact)
	st := c.refreshed(r, "recover.used")
	if st == nil {
		return
	}
	// the recovery is complete before it is used
	sig, _ := r.waitInLoop(st.li)
	if !c.ob(sig != nil, "recover.wait", "refresh", "a polynomial is used without waiting for its recovery") {
		return
	}
	v := c.afterSignal(r, st.add, *sig, "recover.published", "refresh")
	for _, q := range sig.e.ctx.vars {
		c.oncePer(r, sig.e, sig.e.pc, q.Sym, "recover.published", "refresh: signal")
	}
	v = simp2(v, sig.cond)
	if !c.ob(v.op == "sel" && v.args[0].op == "interp" && v.args[1] == st.k, "recover.interpolated", "refresh", "adds %s, want coefficient k of an interpolated polynomial", short(v)) {
		return
	}
	ip := v.args[0]
	c.eq(ip.args[0], tF, tTrue, "recover.degree", "interpolation", "degree")
	j := idx("j", mkInt(0), r.T("F+1"))
	X := simp2(mkSel(ip.args[1], j), sig.cond)
	Y := simp2(mkSel(ip.args[2], j), sig.cond)
	c.recoveredPoints(r, sig, X, Y, j)
}

// recoveredPoints: the point (X, Y) number j is element j of a list whose elements were verified.
func (c *Ck) recoveredPoints(r *Run, sig *signal, X, Y, j *Term) {
	var M *Term // the list the points come from
	for _, t := range []*Term{X, Y} {
		walk(t, func(x *Term) {
			if x.op == "sel" && x.args[1] == j && (x.args[0].op == "cat" || x.args[0].op == "mu" || x.args[0].op == "shared") {
				M = x.args[0]
			}
		})
	}
	if !c.ob(M != nil, "recover.points", "interpolation", "the points are %s, %s, want elements of the list of verified points", short(X), short(Y)) {
		return
	}
	c.ob(implies(sig.cond, r.env.with("M", M).T("len(M) >= F+1")), "recover.enough", "interpolation", "done with fewer than t+1 points: %s", short(sig.cond))
	c.waitsNoLonger(r, M, "F+1", sig.cond, "recover.enough", "interpolation")
	L := M
	if L.op == "cat" {
		L = L.args[0]
	}
	if !c.ob(L.op == "mu" || L.op == "shared", "recover.points", "interpolation", "the points come from %s", short(M)) {
		return
	}
	for _, a := range c.grows(r, L.args[0], sig.e.ctx, "recover.points", "points") {
		x := simp2(subst1(X, mkSel(M, j), a.elem), a.w.guard)
		y := simp2(subst1(Y, mkSel(M, j), a.elem), a.w.guard)
		at := &Effect{ctx: a.w.ctx, seq: a.w.seq, pc: a.w.guard, pos: a.w.pos}
		g := a.w.guard
		c.recoverPoint(r, at, g, x, y, a)
	}
}

func (c *Ck) recoverPoint(r *Run, at *Effect, g, x, y *Term, a listAdd) {
	both := mk("list", "", x, y, g)
	b2, cond := c.received(r, both, "recover.message", "points")
	m := r.message(b2, "Recover")
	if !c.ob(m != nil, "recover.message", "points", "a point is taken without a Recover message: %s", short(g)) {
		return
	}
	x, y, g = b2.args[0], b2.args[1], bAnd(b2.args[2], cond)
	e := r.env.with("m", m)
	e = e.with("d", e.T(`unm("protobuf.Recover", m.Data)`))
	// the commitments are those of the member the message is about
	idxT := e.T("d.Index")
	sol := solveFor(idxT, cond)
	if !c.ob(sol != nil, "recover.message", "points: index", "the message handled is not tied to the member it is about: %s", short(cond)) {
		return
	}
	x, y, g = subst1(x, idxT, sol), subst1(y, idxT, sol), subst1(g, idxT, sol)
	pc, cc, ce := c.usesCommit(r, at, g, addc(sol, -1), "recover.commitments", "points")
	if ce == nil {
		return
	}
	e = e.with("c", ce["c"])
	pc = bAnd(pc, cc)
	c.imp(bAnd(pc, e.T("P.PID <= 2*F")), e.T("kzg(decG1(c[P.PID].CBj), decG1(d.W), asfr(m.Sender+1), fr32(d.V))"), "recover.verified", "points", "using a point")
	c.imp(bAnd(pc, e.T("P.PID >= 2*F+1")), e.T("kzg(lincomb(seq(j, 2*F+1, decG1(c[j].CBj)), lagr(seq(j, 2*F+1, asfr(j+1)), asfr(P.PID+1))), decG1(d.W), asfr(m.Sender+1), fr32(d.V))"), "recover.verified", "points: interpolated commitment", "using a point")
	// and a verified point is always used
	sig := e.with("k", sol).T("vperr(P.SigPK, dec(k), d.SigShare) == nil_ && tidxerr(d.SigShare) == nil_ && tidx(d.SigShare) == m.Sender")
	for _, w := range []struct{ when, kzg string }{
		{"P.PID <= 2*F", "kzg(decG1(c[P.PID].CBj), decG1(d.W), asfr(m.Sender+1), fr32(d.V))"},
		{"P.PID >= 2*F+1", "kzg(lincomb(seq(j, 2*F+1, decG1(c[j].CBj)), lagr(seq(j, 2*F+1, asfr(j+1)), asfr(P.PID+1))), decG1(d.W), asfr(m.Sender+1), fr32(d.V))"},
	} {
		known := e.with("k", sol).T("d.Index == k && k >= 1 && k <= N && m.Sender >= 0 && m.Sender < N")
		all := bAndN(sig, known, cc, e.T(w.when), e.T(w.kzg))
		rest := simplify(bAnd(pc, all), all)
		for _, x := range atomsOf(rest) {
			c.ob(isFlagAtom(x), "recover.accept", "points when "+w.when, "a verified point is not used unless %s", short(rest))
		}
	}
	// one message of each member about each member
	for _, s := range r.sendsOf(m) {
		for _, key := range []*Term{mkFld(m, "Sender"), idxT} {
			c.oncePer(r, s, s.pc, key, "recover.once", "points: "+brief(key))
		}
	}
	c.eq(x, e.T("asfr(m.Sender+1)"), pc, "recover.points", "points", "abscissa")
	c.eq(y, e.T("fr32(d.V)"), pc, "recover.points", "points", "value")
}

// sendsOf are the sends inside the process that pass on message m, or, if there are none, the
// receptions of the message themselves.
func (r *Run) sendsOf(m *Term) []*Effect {
	var out []*Effect
	for _, e := range r.effects {
		if e.kind == "send" && len(e.args) > 1 && containsTerm(e.args[1], m) && !unsat(e.pc) {
			out = append(out, e)
		}
	}
	return out
}

// isFlagAtom: a condition on what the loop has seen before.
func isFlagAtom(a *Term) bool {
	return len(mus(a)) > 0 && a.op != "ge0" && a.op != "eq0" && a.op != "eq" && a.op != "forall"
}

// solveFor is the value an equation in cond gives to x.
func solveFor(x, cond *Term) *Term {
	for _, a := range atomsOf(cond) {
		if a.op != "eq0" || !implies(cond, a) {
			continue
		}
		if k := coefOf(a.args[0], x); k == 1 || k == -1 {
			if v := mulc(linComb2(a.args[0], 1, x, -k), -k); !containsTerm(v, x) {
				return v
			}
		}
	}
	return nil
}

// checkAgreement: what a member proposes to the agreement, and that the refresh adds exactly the
// polynomials of the members agreed on.
func checkAgreement(c *Ck) {
	r := c.run(proact)
	id := mkSym("arg0")
	cs := r.calls("MainProcess")
	if !c.ob(len(cs) == 1, "agree.input", "agreement", "%d calls, want 1", len(cs)) {
		return
	}
	call := cs[0]
	c.ob(call.args[0] == tP && call.args[1] == id, "agree.input", "agreement: instance", "run as %s for instance %s", brief(call.args[0]), brief(call.args[1]))
	c.oncePer(r, call, call.pc, nil, "agree.once", "agreement")
	in := un(call.args[2], "marshal")
	if !c.ob(in != nil && structName(in) == "protobuf.MVBAIN", "agree.input", "agreement: input", "is %s", short(call.args[2])) {
		return
	}
	J, S := mkFld(in, "J"), mkFld(in, "Sig")
	c.ob(implies(call.pc, r.env.with("J", J).T("len(J) >= F+1")), "agree.enough", "agreement: input", "given with fewer than t+1 members: %s", short(call.pc))
	c.waitsNoLonger(r, J, "F+1", call.pc, "agree.enough", "agreement: input")
	if !c.ob(J.op == "cat" && S.op == "cat" && isOld(J.args[0]) && isOld(S.args[0]), "agree.input", "agreement: input", "members %s, proofs %s are not lists that grow", short(J), short(S)) {
		return
	}
	js := c.grows(r, J.args[0].args[0], call.ctx, "agree.members", "members")
	sg := c.grows(r, S.args[0].args[0], call.ctx, "agree.proofs", "proofs")
	if !c.ob(len(js) == 1 && len(sg) == 1, "agree.members", "members and proofs", "added at %d and %d places, want one of each", len(js), len(sg)) {
		return
	}
	j, p := js[0], sg[0]
	c.ob(ctxID(j.w.ctx) == ctxID(p.w.ctx) && sameTerm(j.w.guard, p.w.guard, tTrue) && len(j.w.held) > 0 && contains2(p.w.held, j.w.held[len(j.w.held)-1]), "agree.members", "members and proofs", "not added together")
	at := &Effect{ctx: j.w.ctx, seq: j.w.seq, pc: j.w.guard, pos: j.w.pos}
	c.oncePer(r, at, j.w.guard, j.elem, "agree.once-each", "members")
	// the proof: a signature on the member's index from 2t+1 shares
	e := r.env.with("k", j.elem)
	rec := p.elem
	if !c.ob(rec.op == "trec" && len(rec.args) == 5, "agree.proofs", "proof", "is %s, want a combined signature", short(rec)) {
		return
	}
	c.eq(rec.args[0], e.T("P.SigPK"), tTrue, "agree.proofs", "proof: key", "public key")
	c.eq(rec.args[1], e.T("dec(k)"), tTrue, "agree.proofs", "proof: message", "signed message")
	c.eq(rec.args[3], e.T("2*F+1"), tTrue, "agree.proofs", "proof: threshold", "threshold")
	c.eq(rec.args[4], e.T("3*F+1"), tTrue, "agree.proofs", "proof: committee", "number of members")
	g := p.w.guard
	c.ob(implies(g, e.with("s", rec.args[2]).T("len(s) >= 2*F+1")), "agree.quorum", "proof", "combined from fewer than 2t+1 shares: %s", short(g))
	c.waitsNoLonger(r, rec.args[2], "2*F+1", g, "agree.quorum", "proof")
	x := idx("x", mkInt(0), mkLen(rec.args[2]))
	c.signatureShares(r, rec.args[2], x, g, call.ctx, j.elem)
	c.refreshSum(r, call)
}

// waitsNoLonger: what happens on condition cond, when list M has enough elements, does not wait
// for more of them.
func (c *Ck) waitsNoLonger(r *Run, M *Term, enough string, cond *Term, rule, site string) {
	n := mkLen(M)
	size := map[*Term]bool{}
	walk(n, func(x *Term) {
		if x.op == "len" {
			size[x] = true
		}
	})
	full := r.env.with("M", M).T("len(M) == " + enough)
	rest := simplify(cond, full)
	ok := !unsat(bAnd(cond, full))
	for _, a := range atomsOf(rest) {
		if a.op == "ge0" || a.op == "eq0" {
			walk(a, func(x *Term) { ok = ok && !size[x] })
		}
	}
	c.ob(ok, rule, site+": no more than that", "waits for more elements than %s: %s", enough, short(rest))
}

func isOld(t *Term) bool { return t.op == "mu" || t.op == "shared" }

// signatureShares: the shares in list S are verified shares of different members on the index of member k.
func (c *Ck) signatureShares(r *Run, S, x, g *Term, ctx *Ctx, k *Term) {
	X := simp2(mkSel(S, x), g)
	var M *Term
	walk(X, func(y *Term) {
		if y.op == "sel" && y.args[1] == x && (y.args[0].op == "cat" || isOld(y.args[0])) {
			M = y.args[0]
		}
	})
	L := M
	if L != nil && L.op == "cat" {
		L = L.args[0]
	}
	if !c.ob(L != nil && isOld(L), "agree.shares", "signature shares", "are %s, want those collected", short(X)) {
		return
	}
	for _, a := range c.grows(r, L.args[0], ctx, "agree.shares", "signature shares") {
		sh := simp2(subst1(X, mkSel(M, x), a.elem), a.w.guard)
		both, cond := c.received(r, mk("list", "", sh, a.w.guard), "agree.shares", "signature shares")
		m := r.message(both, "Recover")
		if !c.ob(m != nil, "agree.shares", "signature shares", "a share is taken without a Recover message") {
			continue
		}
		sh, ag := both.args[0], bAnd(both.args[1], cond)
		e := r.env.with("m", m, "s", sh, "k", k)
		e = e.with("d", e.T(`unm("protobuf.Recover", m.Data)`))
		for _, src := range []string{"vperr(P.SigPK, dec(k), s) == nil_", "tidxerr(s) == nil_", "tidx(s) == m.Sender"} {
			c.imp(ag, e.T(src), "agree.shares", "signature share: "+src, "collecting a share")
		}
		c.ob(implies(ag, mkEq(e.T("d.Index"), k)), "agree.shares", "signature share: member", "a share about another member is collected: %s", short(ag))
		for _, s := range r.sendsOf(m) {
			for _, key := range []*Term{mkFld(m, "Sender"), e.T("d.Index")} {
				c.oncePer(r, s, s.pc, key, "agree.once-each", "signature shares: "+brief(key))
			}
		}
	}
}

// refreshSum: the refresh adds, for each member of the agreed set, its recovered polynomial and its
// verified commitments.
func (c *Ck) refreshSum(r *Run, call *Effect) {
	st := c.refreshed(r, "refresh.share")
	if st == nil {
		return
	}
	if !c.ob(st.n.op == "len", "refresh.result", "agreed set", "the refresh goes over %s members, want the agreed ones", short(st.n)) {
		return
	}
	n, _ := c.received(r, st.n, "refresh.result", "agreed set")
	res := resultOf(n, "MainProcess", tP)
	if !c.ob(res != nil, "refresh.result", "agreed set", "the refresh goes over %s, want the result of the agreement", short(n)) {
		return
	}
	e := r.env.with("res", res)
	J := e.T(`unm("protobuf.MVBAIN", res).J`)
	e = e.with("J", J, "n", st.li.k)
	c.eq(n, e.T("len(J)"), tTrue, "refresh.result", "agreed set", "number of polynomials added")
	// the polynomial added is the one of the n-th agreed member
	add, _ := c.received(r, st.add, "refresh.result", "agreed set: share")
	root, path := sharedChain(add)
	hit := false
	for _, p := range path {
		hit = hit || sameTerm(p, e.T("J[n]"), tTrue)
	}
	walkLoc(root, func(x *Term) { hit = hit || sameTerm(x, e.T("J[n]"), tTrue) })
	c.ob(hit, "refresh.result", "agreed set: share", "adds %s for the n-th agreed member", short(add))
	// commitments
	i := idx("i", mkInt(1), e.T("3*F+1"))
	cq := r.commitSum(st, i)
	if !c.ob(len(cq) == 1, "refresh.commitments", "commitment sums", "%d sums of commitments are kept, want 1", len(cq)) {
		return
	}
	nx := cq[0]
	c.ob(nx.init == r.T("g0") || isAbsent(nx.init), "refresh.commitments", "commitment sums: start", "start at %s", short(nx.init))
	sg, w := r.waitInLoop(st.li)
	if !c.ob(sg != nil, "refresh.commitments", "commitment sums", "used without waiting for their verification") {
		return
	}
	addc1 := nx.add
	if addc1 == nil { // a sum that is not solved
		v := simp2(nx.v, sg.cond)
		if v.op == "addg1" {
			for k, a := range v.args {
				if a == nx.mu {
					addc1 = v.args[1-k]
				}
			}
		}
		if !c.ob(addc1 != nil, "refresh.commitments", "commitment sums", "becomes %s, want one more commitment added", short(v)) {
			return
		}
	}
	addc1 = simp2(addc1, sg.cond)
	last := &Effect{ctx: w.ctx, seq: w.seq + 1, pc: tTrue, pos: w.pos, loops: w.loops}
	v, cond, ce := c.usesCommit(r, last, addc1, addc(mkSel(un(st.n, "len"), st.li.k), -1), "refresh.commitments", "commitment sums")
	if ce == nil {
		return
	}
	for _, w := range []struct{ when, src string }{
		{"i <= 2*F+1", "decG1(c[i-1].CBj)"},
		{"i >= 2*F+2", "lincomb(seq(j, 2*F+1, decG1(c[j].CBj)), lagr(seq(j, 2*F+1, asfr(j+1)), asfr(i)))"},
	} {
		ee := ce.with("i", i)
		pc := bAnd(cond, ee.T(w.when))
		c.eq(simp2(v, pc), ee.T(w.src), pc, "refresh.commitments", "commitment sums when "+w.when, "commitment added")
	}
}

// summed is a sum of commitments kept by a loop: the value after the loop, and the one added in an
// iteration. Of a sum that is not solved: its value at the start and the end of an iteration.
type summed struct{ total, init, add, mu, v *Term }

// commitSum finds the sums of commitments at index i, kept by the refresh, that the verification of new
// commitments uses.
func (r *Run) commitSum(st *refreshStep, i *Term) []summed {
	li := st.li
	var out []summed
	seen := map[*Term]bool{}
	for _, e := range r.effects {
		if e.kind != "send" || resultOf(e.pc, "RBCReceive", mkStr("_2,")) == nil {
			continue
		}
		for _, m := range mus(e.pc) {
			root, path := locParts(m.args[0])
			if m.sym != li.id || len(path) != 1 || seen[root] {
				continue
			}
			seen[root] = true
			h := raw("mu", li.id, 0, []*Term{mkLoc(root, i), li.k}, nil)
			out = append(out, summed{
				total: raw("mu", li.id, 0, []*Term{h.args[0], st.n}, nil),
				init:  r.counterInit(li, h), mu: h, v: simp2(r.nextOf(li, h), tTrue)})
		}
		walk(e.pc, func(x *Term) {
			if x.op != "sumg1" || x.args[0] != st.n {
				return
			}
			add := instBinder(x, li.k)[0]
			var at *Term
			if isOld(add) {
				if _, path := locParts(add.args[0]); len(path) > 0 {
					at = path[len(path)-1]
				}
			} else if add.op == "sel" {
				at = add.args[1]
			}
			for _, q := range e.loops {
				if at == nil || coefOf(at, q.Sym) != 1 {
					continue
				}
				m := map[*Term]*Term{q.Sym: linComb2(i, 1, linComb2(at, 1, q.Sym, -1), -1)}
				if t := subst(x, m); !seen[t] {
					seen[t] = true
					out = append(out, summed{total: t, init: tG0, add: subst(add, m)})
				}
				break
			}
		})
	}
	return out
}

func walkLoc(root *Term, f func(*Term)) {
	if root != nil {
		walk(root, f)
	}
}

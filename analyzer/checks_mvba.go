package main

func init() {
	checks["P14"] = checkPB
	checks["P15"] = checkElection
	checks["P16"] = checkVotes
	checks["P17"] = checkDecide
}

// mailMsg is the message a value was taken from.
func mailMsg(t *Term) *Term {
	var out *Term
	walk(t, func(x *Term) {
		if x.op == "recv" && len(x.args) > 0 && x.args[0].op == "mailbox" {
			out = x
		}
	})
	return out
}

// freeLits are the literals of g about marshalling and about which ready communication is taken.
func freeLits(g *Term) []*Term {
	var out []*Term
	for _, a := range atomsOf(g) {
		m := a.op == "choice"
		walk(a, func(x *Term) { m = m || x.op == "marsherr" || x.op == "choice" })
		if !m {
			continue
		}
		if implies(g, a) {
			out = append(out, a)
		} else if implies(g, bNot(a)) {
			out = append(out, bNot(a))
		}
	}
	return out
}

// combine checks that S, handed over at e, is combined from 2F+1 verified signature shares of
// different members on the message sm. also lists conditions on the member's message m.
func (c *Ck) combine(r *Run, e *Effect, S, sm, also *Term, free []*Term, rule, site string) bool {
	if !c.ob(S.op == "trec" && len(S.args) == 5, rule, site, "is %s, want a signature combined from shares", short(S)) {
		return false
	}
	c.eq(S.args[0], r.T("P.SigPK"), e.pc, rule, site+": key", "public key")
	c.eq(S.args[1], sm, e.pc, rule, site+": message", "signed message")
	c.eq(S.args[3], r.T("2*F+1"), e.pc, rule, site+": threshold", "threshold")
	c.eq(S.args[4], r.T("3*F+1"), e.pc, rule, site+": committee", "number of members")
	L := S.args[2]
	c.imp(e.pc, r.env.with("s", L).T("len(s) >= 2*F+1"), rule, site+": shares", "combining")
	if L.op == "cat" {
		L = L.args[0]
	}
	li := (*loopInfo)(nil)
	if L.op == "mu" {
		li = r.loopOf(L)
	}
	if !c.ob(li != nil, rule, site+": shares", "the shares are %s, not a list filled by a loop", short(S.args[2])) {
		return false
	}
	init := r.counterInit(li, L)
	c.ob(isAbsent(init) || mkLen(init).isInt(0), rule, site+": shares", "the list starts as %s", short(init))
	h := raw("mu", L.sym, L.iv, []*Term{L.args[0], li.k}, nil)
	leaves := condLeaves(r.nextOf(li, h), tTrue)
	if S.args[2].op == "cat" {
		leaves = append(leaves, [2]*Term{e.pc, S.args[2]})
	}
	n := 0
	var m, valid *Term
	for _, l := range leaves {
		v := simp2(l[1], l[0])
		if v == h || sameTerm(v, h, l[0]) {
			continue
		}
		var el *Term
		if v.op == "cat" && len(v.args) == 2 && v.args[0] == h && v.args[1].op == "list" && len(v.args[1].args) == 1 {
			el = v.args[1].args[0]
		}
		if !c.ob(el != nil, rule, site+": shares", "the list changes to %s when %s", short(v), short(l[0])) {
			continue
		}
		m2 := mailMsg(el)
		if !c.ob(m2 != nil, rule, site+": shares", "%s is added, which is not from a message", short(el)) {
			continue
		}
		n++
		ev := r.env.with("s", el, "sm", sm, "m", m2)
		ok := bAndN(ev.T("vperr(P.SigPK, sm, s) == nil_"), ev.T("tidxerr(s) == nil_"), ev.T("tidx(s) == m.Sender"))
		c.imp(l[0], ok, rule, site+": shares", "adding a share")
		if also != nil {
			c.imp(l[0], also, rule, site+": shares", "adding a share")
		}
		m, valid = m2, ok
	}
	if !c.ob(n > 0, rule, site+": shares", "no share is ever added") {
		return false
	}
	if also != nil {
		valid = bAnd(valid, also)
	}
	given := tTrue
	if rc := r.recvIn(mkFld(m, "Sender")); rc != nil {
		given = rc.pc
	}
	return c.tally(r, rule, site+": quorum", Tally{given: given, g: e.pc, T: r.T("2*F+1"), valid: valid, sender: mkFld(m, "Sender"), exact: free != nil, free: free})
}

// checkPB: strong provable broadcast, both sides.
func checkPB(c *Ck) {
	r := c.runOpt("party.SPBSender", "", inlining("party.Sender"))
	id, v := mkSym("arg2"), mkSym("arg3")
	e := r.env.with("id", id, "v", v, "val", mkSym("arg4"))
	vs := r.sends("Value")
	if !c.ob(len(vs) == 2, "pb.value", "Value", "%d broadcasts, want one per stage", len(vs)) {
		return
	}
	sm := func(stage string) *Term { return e.with("st", mkStr(stage)).T(`cat("Echo", id, st, sha512(v))`) }
	for i, s := range vs {
		st := []string{"\x01", "\x02"}[i]
		site := "Value of stage " + []string{"1", "2"}[i]
		c.ob(s.all && !s.next && len(s.loops) == 0, "pb.value", site, "is not sent once to every member")
		c.eq(mkFld(s.msg, "Id"), e.with("st", mkStr(st)).T("cat(id, st)"), s.pc, "pb.value", site+": instance", "instance")
		c.eq(mkFld(s.msg, "Sender"), r.T("P.PID"), s.pc, "pb.value", site+": sender", "sender")
		if !c.ob(s.payload != nil, "pb.value", site, "the payload is %s", brief(s.data)) {
			continue
		}
		c.eq(s.f("Value"), v, s.pc, "pb.value", site+": value", "value")
		if i == 0 {
			c.eq(s.f("Validation"), e.T("val"), s.pc, "pb.value", site+": validation", "validation")
			ok := true
			for _, a := range atomsOf(s.pc) {
				m := false
				walk(a, func(x *Term) { m = m || x.op == "marsherr" })
				ok = ok && m
			}
			c.ob(ok, "pb.value", site+": condition", "is only sent when %s", short(s.pc))
			continue
		}
		c.combine(r, s.e, s.f("Validation"), sm("\x01"), nil, freeLits(s.pc), "pb.certificate", "signature of stage 1")
	}
	// what is returned
	n := 0
	for _, x := range r.effects {
		if x.kind != "return" || len(x.args) < 3 {
			continue
		}
		g := simplify(bAnd(x.pc, asBool(x.args[2])), tTrue)
		if unsat(g) {
			continue
		}
		n++
		c.eq(simp2(x.args[0], g), v, g, "pb.result", "SPBSender: value", "value")
		at := *x
		at.pc = g
		S := simp2(x.args[1], g)
		fr := freeLits(g)
		if rc := r.recvIn(S); rc != nil {
			fr = append(fr, rc.pc) // the first stage is over
		}
		c.combine(r, &at, S, sm("\x02"), nil, fr, "pb.certificate", "signature of stage 2")
	}
	c.ob(n > 0, "pb.result", "SPBSender", "never succeeds")
	checkPBReceiver(c)
}

// recvIn is the receive of the message t was taken from.
func (r *Run) recvIn(t *Term) *Effect {
	m := mailMsg(t)
	for _, e := range r.effects {
		if (e.kind == "recv" || e.kind == "selectcase") && len(e.args) > 1 && e.args[1] == m {
			return e
		}
	}
	return nil
}

func checkPBReceiver(c *Ck) {
	r := c.runOpt("party.SPBReceiver", "", inlining("party.Receiver"))
	j, id := mkSym("arg2"), mkSym("arg3")
	e := r.env.with("id", id, "j", j)
	es := r.sends("Echo")
	rs := r.recvs("Value")
	if !c.ob(len(es) == 2 && len(rs) == 2, "pb.echo", "Echo", "%d Echo sends and %d Value receives, want one per stage", len(es), len(rs)) {
		return
	}
	verified := func(m *Term) *Term {
		ee := e.with("m", m)
		return ee.with("d", ee.T(`unm("protobuf.Value", m.Data)`)).T(`bverr(pkc(P.SigPK), cat("Echo", id, "\x01", sha512(d.Value)), d.Validation) == nil_`)
	}
	for i, s := range es {
		st := mkStr([]string{"\x01", "\x02"}[i])
		site := "Echo of stage " + []string{"1", "2"}[i]
		x := rs[i]
		m := x.args[1]
		c.eq(x.args[0], e.with("st", st).T(`mailbox("Value", cat(id, st))`), tTrue, "pb.echo", site+": mailbox", "receives")
		ee := e.with("m", m, "st", st)
		ee = ee.with("d", ee.T(`unm("protobuf.Value", m.Data)`))
		c.eq(s.dest, j, s.pc, "pb.echo", site+": recipient", "recipient")
		c.ob(!s.all && !s.next, "pb.echo", site+": recipient", "is not sent to the sender alone")
		c.eq(mkFld(s.msg, "Id"), ee.T("cat(id, st)"), s.pc, "pb.echo", site+": instance", "instance")
		c.eq(mkFld(s.msg, "Sender"), r.T("P.PID"), s.pc, "pb.echo", site+": sender", "sender")
		if c.ob(s.payload != nil, "pb.echo", site, "payload is %s", brief(s.data)) {
			c.eq(s.f("Sigshare"), ee.T(`tsign(P.SigSK, cat("Echo", id, st, sha512(d.Value)))`), s.pc, "pb.echo", site+": share", "signature share")
		}
		c.imp(s.pc, ee.T("m.Sender == j"), "pb.sender", site+": sender of the value", "signing")
		need := bAnd(x.pc, ee.T("m.Sender == j"))
		if i == 1 {
			c.imp(s.pc, verified(m), "pb.validate", site+": proof of stage 1", "signing")
			need = bAnd(need, verified(m))
		}
		for _, f := range freeLits(s.pc) {
			need = bAnd(need, f)
		}
		c.ob(implies(need, s.pc), "pb.complete", site, "a valid value is not answered: answered when %s", short(s.pc))
		// once
		li := r.loopInfoOf(s.e)
		c.ob(li == nil || unsat(bAnd(s.pc, li.again())), "pb.once", site, "may be sent twice for one stage")
	}
	n := 0
	for _, x := range r.effects {
		if x.kind != "return" || len(x.args) < 3 {
			continue
		}
		g := simplify(bAnd(x.pc, asBool(x.args[2])), tTrue)
		if unsat(g) {
			continue
		}
		n++
		m := rs[1].args[1]
		ee := e.with("m", m)
		ee = ee.with("d", ee.T(`unm("protobuf.Value", m.Data)`))
		c.eq(simp2(x.args[0], g), ee.T("d.Value"), g, "pb.lock", "SPBReceiver: value", "value")
		c.eq(simp2(x.args[1], g), ee.T("d.Validation"), g, "pb.lock", "SPBReceiver: proof", "proof")
		c.imp(g, verified(m), "pb.lock", "SPBReceiver: proof", "returning a lock")
	}
	c.ob(n > 0, "pb.lock", "SPBReceiver", "never succeeds")
}

// mvba is one run of the agreement.
type mvba struct {
	c           *Ck
	r           *Run
	e           Env
	round, IDr  *Term
	leader, IDl *Term // the round's leader, as combined from the coin shares; its broadcast instance
	rec         *Effect
	coin        *Term
}

// mvbaRun analyses the agreement and finds the round and the leader.
func (c *Ck) mvbaRun() *mvba {
	r := c.run("party.MainProcess")
	v := &mvba{c: c, r: r}
	fs := r.recvs("Finish")
	if !c.ob(len(fs) == 1, "mvba.round", "Finish", "%d receive sites, want 1", len(fs)) {
		return nil
	}
	v.IDr = fs[0].args[0].args[1]
	id := v.IDr
	if id.op == "cat" && len(id.args) == 2 && id.args[0] == mkSym("arg1") && id.args[1].op == "u32be" {
		v.round = id.args[1].args[0]
	}
	if !c.ob(v.round != nil, "mvba.round", "round ID", "is %s, want the instance ID and the number of the round", brief(id)) {
		return nil
	}
	okRound := false
	for _, q := range fs[0].loops {
		okRound = okRound || coefOf(v.round, q.Sym) == 1 && isConstInt(sub(v.round, q.Sym)) && q.N == tOmega
	}
	c.ob(okRound, "mvba.round", "round ID", "%s is not the number of the round", brief(v.round))
	v.e = r.env.with("IDr", v.IDr)
	// the leader
	for _, x := range r.effects {
		if x.kind != "send" || unsat(x.pc) {
			continue
		}
		walk(x.args[1], func(y *Term) {
			if y.op == "trec" && (v.coin == nil || v.coin == y) && containsRecv(y, "Done") {
				if v.leader == nil {
					v.coin, v.leader, v.rec = y, x.args[1], x
				}
			}
		})
	}
	if !c.ob(v.leader != nil, "mvba.leader", "leader", "no leader is derived from the coin shares") {
		return nil
	}
	v.IDl = v.e.with("l", v.leader).T("cat(IDr, u32(l))")
	return v
}

func isConstInt(t *Term) bool { return t.op == "int" }

// header checks instance, sender and recipients of a message.
func (v *mvba) header(s *SendOp, rule string) {
	c, r := v.c, v.r
	once := len(s.loops) == 1
	if len(s.loops) == 2 {
		li := r.loopInfoOf(s.e)
		once = li != nil && unsat(bAnd(s.pc, li.again()))
	}
	c.ob(s.all && !s.next && once, rule, s.typ+": recipients", "is not sent once a round to every member")
	c.eq(mkFld(s.msg, "Id"), v.IDr, s.pc, rule, s.typ+": instance", "instance")
	c.eq(mkFld(s.msg, "Sender"), r.T("P.PID"), s.pc, rule, s.typ+": sender", "sender")
	c.ob(s.payload != nil, rule, s.typ+": payload", "payload is %s", brief(s.data))
}

// valid is what makes a message of each type count.
func (v *mvba) valid(m *Term, typ string, raw bool) *Term {
	e := v.e.with("m", m)
	e = e.with("d", e.T(`unm("protobuf.`+typ+`", m.Data)`))
	if !raw {
		e = e.with("IDl", v.IDl)
	}
	switch typ {
	case "Finish":
		return e.T(`bverr(pkc(P.SigPK), cat("Echo", IDr, u32(m.Sender), "\x02", sha512(d.Value)), d.Sig) == nil_`)
	case "Done":
		return e.T(`vperr(P.SigPK, cat("Done", IDr), d.CoinShare) == nil_ && tidxerr(d.CoinShare) == nil_ && tidx(d.CoinShare) == m.Sender`)
	}
	return nil
}

// checkElection: when members reveal their coin shares, and how the leader follows from them.
func checkElection(c *Ck) {
	v := c.mvbaRun()
	if v == nil {
		return
	}
	r := v.r
	ds := r.sends("Done")
	if !c.ob(len(ds) == 1, "elect.reveal", "Done", "%d sends, want 1", len(ds)) {
		return
	}
	d := ds[0]
	v.header(d, "elect.reveal")
	if d.payload != nil {
		c.eq(d.f("CoinShare"), v.e.T(`tsign(P.SigSK, cat("Done", IDr))`), d.pc, "elect.reveal", "Done: coin share", "coin share")
	}
	// it waits
	var sg []signal
	for _, w := range r.waitsBefore(d.e) {
		if w.args[0].op != "donech" {
			sg = append(sg, r.signalsOn(w.args[0])...)
		}
	}
	nF, nD := 0, 0
	for _, s := range sg {
		if s.e.kind != "send" {
			continue
		}
		m := mailMsg(s.e.pc)
		if m == nil {
			continue
		}
		given := tTrue
		if rc := r.recvIn(m); rc != nil {
			given = rc.pc
		}
		switch {
		case containsRecv(s.e.pc, "Finish"):
			nF++
			c.tally(r, "elect.quorum", "Done after Finish", Tally{g: s.e.pc, T: r.T("2*F+1"), valid: v.valid(m, "Finish", true), sender: mkFld(m, "Sender"), exact: true, free: freeLits(s.e.pc), given: given})
		case containsRecv(s.e.pc, "Done"):
			nD++
			c.tally(r, "elect.quorum", "Done after Done", Tally{g: s.e.pc, T: r.T("F+1"), valid: v.valid(m, "Done", true), sender: mkFld(m, "Sender"), exact: true, free: freeLits(s.e.pc), given: given})
		default:
			c.ob(false, "elect.quorum", "Done", "may be sent when %s", short(s.e.pc))
		}
	}
	c.ob(nF == 1 && nD == 1, "elect.quorum", "Done", "is released by %d quorums of Finish and %d amplifications, want one of each", nF, nD)
	free := freeLits(d.pc)
	ok := true
	for _, a := range atomsOf(d.pc) {
		hit := false
		for _, f := range free {
			hit = hit || f == a || f == bNot(a)
		}
		ok = ok && hit
	}
	c.ob(ok, "elect.quorum", "Done: condition", "is only sent when %s", short(d.pc))
	// the leader
	c.combine(r, v.rec, v.coin, v.e.T(`cat("Done", IDr)`), nil, freeLits(v.rec.pc), "elect.coin", "coin")
	want := []*Term{v.e.with("c", v.coin).T("mod(deu32(sub(c, 0, 4)), 3*F+1)")}
	ok = false
	l := v.leader
	if l.op == "mod" && l.args[1] == r.T("3*F+1") {
		// a function of the coin alone
		ok = true
		walkStop(l.args[0], v.coin, func(x *Term) {
			if x.op == "sym" || x.op == "mu" || x.op == "shared" || x.op == "recv" || x.op == "res" {
				ok = false
			}
		})
	}
	c.ob(ok, "elect.leader", "leader", "is %s, want a member determined by the coin alone, such as %s", short(l), short(want[0]))
	n := 0
	for _, x := range r.effects {
		if x.kind == "send" && x.args[1] == v.leader {
			n++
			c.ob(sameTerm(x.pc, v.rec.pc, tTrue), "elect.leader", "leader", "is not handed over at %s whenever it is known", r.posStr(x.pos))
			li := r.loopInfoOf(x)
			c.ob(li == nil || unsat(bAnd(x.pc, li.again())), "elect.leader", "leader", "may be chosen twice in a round")
			// no other value
			for _, s := range r.signalsOn(x.args[0]) {
				c.ob(s.e.kind == "send" && s.e.args[1] == v.leader, "elect.leader", "leader", "another value is handed over at %s", r.posStr(s.e.pos))
			}
		}
	}
	c.ob(n > 0, "elect.leader", "leader", "is never handed over")
}

// walkStop visits the subterms of t outside stop.
func walkStop(t, stop *Term, f func(*Term)) {
	if t == stop {
		return
	}
	f(t)
	for _, a := range t.args {
		walkStop(a, stop, f)
	}
}

// certified: S proves, under f.cond, that the broadcast instance id has completed the stage for value V.
func (v *mvba) certified(f flow, V, S, id *Term, stage, rule, site string) bool {
	c := v.c
	e := v.e.with("V", V, "S", S, "id", id, "st", mkStr(stage))
	sm := e.T(`cat("Echo", id, st, sha512(V))`)
	e = e.with("sm", sm)
	if implies(f.cond, e.T(`bverr(pkc(P.SigPK), sm, S) == nil_`)) {
		return c.ob(true, rule, site, "")
	}
	why := "the proof " + short(S) + " of " + short(V) + " is not checked against stage " + stageName(stage) + " of " + brief(id)
	switch {
	case S.op == "trec" && len(S.args) == 5:
		if sameTerm(S.args[1], sm, f.cond) {
			return c.ob(true, rule, site, "")
		}
		why = "the proof is a signature on " + short(S.args[1]) + ", want " + short(sm)
	case S.op == "res" && V.op == "res" && V.sym == S.sym && V.iv == 0 && S.iv == 1 && sameArgs(V, S):
		ok := raw("res", V.sym, 2, V.args, nil)
		want := map[string]string{"SPBReceiver": "\x01", "SPBSender": "\x02"}[V.sym]
		var inst *Term
		switch V.sym {
		case "SPBReceiver":
			inst = V.args[3]
		case "SPBSender":
			inst = V.args[2]
		}
		switch {
		case want != stage:
			why = "the proof returned by " + V.sym + " is for another stage"
		case V.args[1] != tP || !sameTerm(inst, id, f.cond):
			why = "the proof is for instance " + brief(inst) + ", want " + brief(id)
		case !implies(f.cond, asBool(ok)):
			why = "the broadcast may have failed"
		default:
			return c.ob(true, rule, site, "")
		}
	}
	return c.ob(false, rule, site, "%s", why)
}

func stageName(s string) string { return map[string]string{"\x01": "1", "\x02": "2"}[s] }

func sameArgs(a, b *Term) bool {
	if len(a.args) != len(b.args) {
		return false
	}
	for i := range a.args {
		if a.args[i] != b.args[i] {
			return false
		}
	}
	return true
}

// combined checks every signature that is combined from votes.
func (v *mvba) combined(rule string) {
	c, r := v.c, v.r
	for _, x := range r.effects {
		if x.kind != "send" || unsat(x.pc) || x.args[1].op != "trec" {
			continue
		}
		m := mailMsg(x.pc)
		var typ string
		for _, t := range []string{"PreVote", "Vote"} {
			if containsRecv(x.pc, t) {
				typ = t
			}
		}
		if typ == "" {
			continue
		}
		e := v.e.with("m", m)
		e = e.with("d", e.T(`unm("protobuf.`+typ+`", m.Data)`), "L", v.rawLeader(x))
		switch {
		case typ == "PreVote":
			c.ob(implies(x.pc, bNot(asBool(e.T("d.Vote")))), rule, "No PreVotes", "combined from other votes: %s", short(x.pc))
			c.combine(r, x, x.args[1], e.T(`cat("\x00", IDr)`), bNot(asBool(e.T("d.Vote"))), freeLits(x.pc), rule, "No PreVotes")
		case implies(x.pc, asBool(e.T("d.Vote"))):
			also := bAnd(asBool(e.T("d.Vote")), e.T(`bverr(pkc(P.SigPK), cat("Echo", IDr, u32(L), "\x01", sha512(d.Value)), d.Sig) == nil_`))
			c.combine(r, x, x.args[1], e.T(`cat("Echo", IDr, u32(L), "\x02", sha512(d.Value))`), also, freeLits(x.pc), rule, "Yes votes")
		default:
			also := bAnd(bNot(asBool(e.T("d.Vote"))), e.T(`bverr(pkc(P.SigPK), cat("\x00", IDr), d.Sig) == nil_`))
			c.combine(r, x, x.args[1], e.T(`cat("Unlock", IDr)`), also, freeLits(x.pc), rule, "No votes")
		}
	}
}

// taken: a message of typ with a valid proof of the leader's broadcast is acted on, whoever sent it.
func (v *mvba) taken(typ, stage, rule string) {
	c, r := v.c, v.r
	n := 0
	for _, rc := range r.recvs(typ) {
		if unsat(rc.pc) {
			continue
		}
		n++
		m := rc.args[1]
		e := v.e.with("m", m)
		e = e.with("d", e.T(`unm("protobuf.`+typ+`", m.Data)`), "L", v.rawLeader(rc), "st", mkStr(stage))
		need := bAnd(rc.pc, e.T(`bverr(pkc(P.SigPK), cat("Echo", IDr, u32(L), st, sha512(d.Value)), d.Sig) == nil_`))
		if typ == "PreVote" {
			need = bAnd(need, asBool(e.T("d.Vote")))
		}
		ok, why := false, "nothing is done with it"
		for _, s := range r.effects {
			if s.kind != "send" || ctxID(s.ctx) != ctxID(rc.ctx) || unsat(bAnd(s.pc, need)) || !internalChan(s.args[0]) {
				continue
			}
			all := need
			for _, l := range freeLits(s.pc) {
				all = bAnd(all, l)
			}
			rest := simplify(bAnd(s.pc, all), all)
			good := true
			for _, a := range atomsOf(rest) {
				if !isFlagAtom(a) || containsTerm(a, m) {
					good, why = false, "acted on only when "+short(rest)
				}
			}
			ok = ok || good
		}
		c.ob(ok, rule, typ+" with a valid proof", "%s", why)
	}
	c.ob(n > 0, rule, typ, "is never received")
}

// shortCut: who holds the leader's Finish message when the leader is known does not go on to vote.
func (v *mvba) shortCut() {
	c, r := v.c, v.r
	for _, b := range v.ballots("PreVote", "decide.shortcut") {
		ok := false
		for _, a := range atomsOf(b.pc) {
			if a.op != "has" || !implies(b.pc, bNot(a)) || a.args[0].op != "smslot" {
				continue
			}
			l, _ := v.resolve(a.args[0].args[1])
			for _, e := range r.effects {
				ok = ok || e.kind == "smstore" && e.args[0] == a.args[0].args[0] && l == v.leader && containsRecv(e.pc, "Finish")
			}
		}
		c.ob(ok, "decide.shortcut", "PreVote", "is sent although the member may hold the leader's Finish message: %s", short(b.pc))
	}
}

// rawLeader is the leader as the goroutine of x knows it.
func (v *mvba) rawLeader(x *Effect) *Term {
	for _, y := range v.r.effects {
		if y.kind != "recv" || len(y.args) < 2 || !y.ctx.isAncestorOf(x.ctx) || y.seq > x.seq {
			continue
		}
		bs := v.r.bursts(y.args[0])
		if len(bs) == 1 && len(bs[0]) == 1 && bs[0][0].e.args[1] == v.leader {
			return y.args[1]
		}
	}
	return v.leader
}

// vote splits the sends of a type into those for and against.
type ballot struct {
	s   *SendOp
	pc  *Term
	yes bool
}

func (v *mvba) ballots(typ, rule string) []ballot {
	var out []ballot
	for _, s := range v.r.sends(typ) {
		v.header(s, rule)
		if s.payload == nil {
			continue
		}
		b := asBool(s.f("Vote"))
		for _, yes := range []bool{true, false} {
			g := bAnd(s.pc, b)
			if !yes {
				g = bAnd(s.pc, bNot(b))
			}
			g = simplify(g, tTrue)
			if !unsat(g) {
				out = append(out, ballot{s, g, yes})
			}
		}
	}
	for i := range out {
		for j := range out[:i] {
			v.c.ob(out[i].s == out[j].s || unsat(bAnd(out[i].pc, out[j].pc)), rule, typ, "may be sent twice in a round")
		}
	}
	return out
}

// checkVotes: what PreVote and Vote messages say, and what they rest on.
func checkVotes(c *Ck) {
	v := c.mvbaRun()
	if v == nil {
		return
	}
	r := v.r
	v.aligned(false, "vote.flags")
	c.combine(r, v.rec, v.coin, v.e.T(`cat("Done", IDr)`), nil, nil, "vote.leader", "coin")
	v.combined("vote.quorum")
	v.taken("PreVote", "\x01", "vote.accept")
	ny, nn := 0, 0
	for _, b := range v.ballots("PreVote", "prevote.send") {
		g := func(f string) *Term { return simp2(mkFld(b.s.payload, f), b.pc) }
		if b.yes {
			for _, f := range c.sources(r, []*Term{g("Value"), g("Sig")}, b.pc, "prevote.yes", "Yes PreVote") {
				ny++
				v.certified(f, f.vals[0], f.vals[1], v.IDl, "\x01", "prevote.yes", "Yes PreVote")
			}
			continue
		}
		nn++
		c.eq(g("Sig"), v.e.T(`tsign(P.SigSK, cat("\x00", IDr))`), b.pc, "prevote.no", "No PreVote: share", "signature share")
		// only without a lock on the leader's broadcast
		ok := false
		for _, a := range atomsOf(b.pc) {
			if a.op == "has" && implies(b.pc, bNot(a)) && a.args[0].op == "smslot" {
				l, _ := v.resolve(a.args[0].args[1])
				ok = ok || l == v.leader && v.locks(a.args[0].args[0], b.s)
			}
		}
		c.ob(ok, "prevote.no", "No PreVote: condition", "is sent although the leader's broadcast may have been confirmed (a lock must be recorded, before the PreVote, for each one that is): %s", short(b.pc))
	}
	c.ob(ny > 0 && nn > 0, "prevote.send", "PreVote", "%d ways to vote Yes and %d to vote No, want both", ny, nn)
	ny, nn = 0, 0
	for _, b := range v.ballots("Vote", "vote.send") {
		g := func(f string) *Term { return simp2(mkFld(b.s.payload, f), b.pc) }
		for _, f := range c.sources(r, []*Term{g("Value"), g("Sig"), g("Sigshare")}, b.pc, "vote.send", "Vote") {
			e := v.e.with("V", f.vals[0], "S", f.vals[1], "IDl", v.IDl)
			if b.yes {
				ny++
				v.certified(f, f.vals[0], f.vals[1], v.IDl, "\x01", "vote.yes", "Yes Vote")
				c.eq(f.vals[2], e.T(`tsign(P.SigSK, cat("Echo", IDl, "\x02", sha512(V)))`), f.cond, "vote.yes", "Yes Vote: share", "signature share")
				continue
			}
			nn++
			ok := implies(f.cond, e.T(`bverr(pkc(P.SigPK), cat("\x00", IDr), S) == nil_`)) || f.vals[1].op == "trec" && sameTerm(f.vals[1].args[1], e.T(`cat("\x00", IDr)`), f.cond)
			c.ob(ok, "vote.no", "No Vote: proof", "the proof %s does not show a quorum of No PreVotes", short(f.vals[1]))
			c.eq(f.vals[2], e.T(`tsign(P.SigSK, cat("Unlock", IDr))`), f.cond, "vote.no", "No Vote: share", "signature share")
		}
	}
	c.ob(ny > 0 && nn > 0, "vote.send", "Vote", "%d ways to vote Yes and %d to vote No, want both", ny, nn)
}

// resolve replaces what is received from single-source channels.
func (v *mvba) resolve(t *Term) (*Term, *Term) {
	fs := v.c.sources(v.r, []*Term{t}, tTrue, "mvba.leader", "leader")
	if len(fs) != 1 {
		return t, tTrue
	}
	return fs[0].vals[0], fs[0].cond
}

// locks: the map holds, when the PreVote s is made, a lock for every broadcast that this member has
// confirmed: each receiver stores it and is waited for, and takes no part any more.
func (v *mvba) locks(m *Term, s *SendOp) bool {
	r := v.r
	ok := false
	for _, call := range r.calls("SPBReceiver") {
		for _, e := range r.effects {
			if e.kind != "smstore" || e.args[0] != m || ctxID(e.ctx) != ctxID(call.ctx) || e.seq < call.seq {
				continue
			}
			res := resultOf(e.args[2], "SPBReceiver", tP)
			if res == nil {
				continue
			}
			okT := asBool(raw("res", res.sym, 2, res.args, nil))
			if implies(bAnd(call.pc, okT), e.pc) && e.args[1] == call.args[2] {
				ok = v.waited(e, s)
			}
		}
	}
	return ok
}

// waited: the main flow waits for the goroutine of e to be past e before it starts s.
func (v *mvba) waited(e *Effect, s *SendOp) bool {
	r := v.r
	lim := s.e.seq
	if ctxID(s.e.ctx) != "main" {
		lim = s.e.ctx.spawnSeq
	}
	for _, w := range r.effects {
		if w.kind != "wg" || !hasSuffix(w.name, "Wait") || ctxID(w.ctx) != "main" || w.seq > lim || !implies(s.pc, w.pc) {
			continue
		}
		// the counter starts at the number of goroutines and each counts down once, at its end
		total := mkInt(0)
		past := false
		for _, d := range r.effects {
			if d.kind == "wg" && hasSuffix(d.name, "Done") && d.args[0] == w.args[0] {
				n := mkInt(1)
				for _, q := range d.ctx.vars {
					if q.N != tOmega {
						n = q.N
					}
				}
				total = add(total, n)
				if ctxID(d.ctx) == ctxID(e.ctx) && d.seq > e.seq {
					past = true
				}
			}
		}
		for _, a := range r.effects {
			if a.kind == "wg" && hasSuffix(a.name, "Add") && a.args[0] == w.args[0] && a.pc == tTrue && past && implies(tTrue, ge0(sub(a.args[1], total))) {
				return true
			}
		}
	}
	return false
}

func hasSuffix(s, t string) bool { return len(s) >= len(t) && s[len(s)-len(t):] == t }

// aligned: what is received after a flag has been sent together with that flag.
func (v *mvba) aligned(main bool, rule string) {
	c, r := v.c, v.r
	for _, y := range r.effects {
		if y.kind != "recv" || len(y.args) < 2 || !internalRecv(y.args[1]) || unsat(y.pc) || (ctxID(y.ctx) == "main") != main {
			continue
		}
		flags := map[*Term]bool{}
		walk(y.pc, func(x *Term) {
			if internalRecv(x) && x != y.args[1] {
				flags[x] = true
			}
		})
		for x := range flags {
			bs := r.bursts(x.args[0])
			if len(bs) < 2 {
				continue
			}
			for _, b := range bs {
				if unsat(bAnd(subst1(y.pc, x, subst(b[0].e.args[1], b[0].sub)), b[0].cond)) {
					continue
				}
				hit := false
				for _, d := range r.bursts(y.args[0]) {
					hit = hit || ctxID(d[0].e.ctx) == ctxID(b[0].e.ctx) && sameTerm(d[0].e.pc, b[0].e.pc, tTrue) && len(d) >= r.recvsOn(y)
				}
				c.ob(hit, rule, "flag "+brief(b[0].e.args[1]), "is followed by a receive at %s of something that is not sent with this flag", r.posStr(y.pos))
			}
		}
	}
}

// recvsOn counts the receives from the channel of y that its goroutine may make on one path.
func (r *Run) recvsOn(y *Effect) int {
	n := 0
	for _, e := range r.effects {
		if e.kind == "recv" && len(e.args) > 1 && e.args[0] == y.args[0] && ctxID(e.ctx) == ctxID(y.ctx) && !unsat(bAnd(e.pc, y.pc)) {
			n++
		}
	}
	return n
}

// sameUpTo: two conditions are the same but for marshalling and the choice of communication.
func sameUpTo(a, b *Term) bool {
	for _, f := range append(freeLits(a), freeLits(b)...) {
		a, b = bAnd(a, f), bAnd(b, f)
	}
	return sameTerm(a, b, tTrue)
}

// checkDecide: decisions, what they rest on, how they spread, and what the next round starts from.
func checkDecide(c *Ck) {
	v := c.mvbaRun()
	if v == nil {
		return
	}
	r := v.r
	v.combined("decide.quorum")
	v.taken("Halt", "\x02", "decide.accept")
	v.shortCut()
	v.aligned(true, "decide.flags")
	v.lockStep()
	v.stops()
	// every Halt carries a proof
	hs := r.sends("Halt")
	for _, s := range hs {
		v.header(s, "decide.halt")
		if s.payload == nil {
			continue
		}
		fs := c.sources(r, []*Term{s.f("Value"), s.f("Sig")}, s.pc, "decide.halt", "Halt")
		for _, f := range fs {
			v.certified(f, f.vals[0], f.vals[1], v.IDl, "\x02", "decide.halt", "Halt")
		}
		c.ob(len(fs) > 0, "decide.halt", "Halt", "is never sent with a proof")
	}
	// Finish messages
	fin := r.sends("Finish")
	if c.ob(len(fin) == 1, "decide.finish", "Finish", "%d sends, want 1", len(fin)) {
		s := fin[0]
		v.header(s, "decide.finish")
		if s.payload != nil {
			f := flow{cond: s.pc}
			v.certified(f, s.f("Value"), s.f("Sig"), v.e.T("cat(IDr, u32(P.PID))"), "\x02", "decide.finish", "Finish")
			for _, call := range r.calls("SPBSender") {
				ok := asBool(raw("res", s.f("Value").sym, 2, s.f("Value").args, nil))
				need := bAnd(call.pc, ok)
				for _, l := range freeLits(s.pc) {
					need = bAnd(need, l)
				}
				c.ob(implies(need, s.pc), "decide.finish", "Finish", "is not sent whenever the broadcast succeeded: sent when %s", short(s.pc))
			}
		}
	}
	// decisions
	n := 0
	for _, x := range r.effects {
		if x.kind != "return" || len(x.args) == 0 {
			continue
		}
		for _, l := range condLeaves(x.args[0], x.pc) {
			n++
			spread := false
			for _, s := range hs {
				if s.payload != nil && ctxID(s.e.ctx) == "main" && implies(l[0], s.pc) && sameTerm(s.f("Value"), l[1], l[0]) {
					spread = true
				}
			}
			if spread {
				c.ob(true, "decide.spread", "decision", "")
				continue
			}
			for _, f := range c.sources(r, []*Term{l[1]}, l[0], "decide.value", "decision") {
				ok := false
				for _, a := range atomsOf(f.cond) {
					walk(a, func(y *Term) {
						if y.op == "bverr" && len(y.args) == 3 {
							ok = ok || implies(f.cond, mkEq(y, tNil)) && y.args[0] == r.T("pkc(P.SigPK)") && sameTerm(y.args[1], v.e.with("IDl", v.IDl, "V", f.vals[0]).T(`cat("Echo", IDl, "\x02", sha512(V))`), f.cond)
						}
					})
				}
				c.ob(ok, "decide.value", "decision", "%s is decided without a proof that the leader's broadcast completed with it", short(f.vals[0]))
				// the one who hands it over has forwarded the proof
				fwd := false
				for _, e := range f.from {
					for _, s := range hs {
						if s.payload != nil && ctxID(s.e.ctx) == ctxID(e.ctx) && s.e.seq < e.seq && sameUpTo(s.pc, e.pc) && sameTerm(s.f("Value"), e.args[1], e.pc) {
							fwd = true
						}
					}
				}
				c.ob(fwd, "decide.spread", "decision", "is taken without the proof being sent to the other members")
			}
		}
	}
	c.ob(n > 0, "decide.value", "decision", "is never taken")
	v.nextRound()
}

// lockStep: the member takes part in the broadcasts with the round's instances, value and proof.
func (v *mvba) lockStep() {
	c, r := v.c, v.r
	rs, ss := r.calls("SPBReceiver"), r.calls("SPBSender")
	if !c.ob(len(rs) == 1 && len(ss) == 1, "round.broadcasts", "broadcasts", "%d calls of SPBReceiver and %d of SPBSender, want one each", len(rs), len(ss)) {
		return
	}
	x, s := rs[0], ss[0]
	j := x.args[2]
	full := false
	for _, q := range x.ctx.vars {
		full = full || q.Sym == j && q.N == r.T("3*F+1")
	}
	for _, q := range x.loops {
		full = full || q.Sym == j && q.N == r.T("3*F+1")
	}
	c.ob(full && x.pc == tTrue && x.args[1] == tP, "round.broadcasts", "SPBReceiver", "is not run once for every member: %s when %s", brief(j), short(x.pc))
	c.eq(x.args[3], v.e.with("j", j).T("cat(IDr, u32(j))"), tTrue, "round.broadcasts", "SPBReceiver: instance", "instance")
	c.ob(s.pc == tTrue && s.args[1] == tP, "round.broadcasts", "SPBSender", "is only run when %s", short(s.pc))
	c.eq(s.args[2], v.e.T("cat(IDr, u32(P.PID))"), tTrue, "round.broadcasts", "SPBSender: instance", "instance")
}

// nextRound: a round is left undecided only with 2F+1 votes; a value voted for is carried over.
func (v *mvba) nextRound() {
	c, r := v.c, v.r
	ss := r.calls("SPBSender")
	if len(ss) != 1 {
		return
	}
	var li *loopInfo
	for _, l := range r.loopInfos {
		if ctxID(l.ctx) == "main" && coefOf(v.round, l.k) == 1 {
			li = l
		}
	}
	if !c.ob(li != nil, "round.state", "rounds", "no loop over rounds") {
		return
	}
	// the state of a round: what is broadcast in it
	state := func(t *Term) *Term {
		if t.op == "shared" || t.op == "mu" {
			return raw("mu", li.id, 0, []*Term{t.args[0], li.k}, nil)
		}
		return t
	}
	val, prf := state(ss[0].args[3]), state(ss[0].args[4])
	for i, x := range []*Term{val, prf} {
		if !c.ob(x.op == "mu", "round.state", "rounds", "the broadcast of a round is of %s", short(x)) {
			return
		}
		c.eq(r.counterInit(li, x), mkSym([]string{"arg2", "arg3"}[i]), tTrue, "round.state", "first round", "start")
		// not changed while the round's broadcast may still read it
		root, _ := locParts(x.args[0])
		for _, e := range r.mem.jent {
			if e.barrier == "" && e.root == root && ctxID(e.ctx) == "main" && e.seq > ss[0].ctx.spawnSeq && ss[0].args[3+i].op == "shared" {
				c.ob(v.waited(ss[0], &SendOp{e: &Effect{ctx: e.ctx, seq: e.seq}, pc: e.guard}), "round.state", "rounds", "the round's value is changed at %s while its broadcast may still run", r.posStr(e.pos))
			}
		}
	}
	// flags: how many votes each rests on
	no, yes, mixed := v.flags()
	if no == nil || yes == nil || mixed == nil {
		c.ob(false, "round.quorum", "votes", "no place where a round ends on Yes, on No, and on mixed votes")
		return
	}
	again := li.again()
	n := 0
	for _, l := range splitVals([]*Term{r.nextOf(li, val), r.nextOf(li, prf)}, again) {
		nv, np, g := l.vals[0], l.vals[1], l.cond
		n++
		// which flags lead here
		for _, f := range v.flagCases(g) {
			switch {
			case f.kind == "none":
				c.ob(false, "round.quorum", "next round", "is started without a quorum of votes, when %s", short(g))
			case f.kind == "no":
				c.eq(nv, val, g, "round.carry", "after No votes: value", "value")
				if c.ob(np.op == "cat" && len(np.args) == 2 && np.args[0] == prf, "round.carry", "after No votes: proof", "becomes %s, want the former one and the proof of the No votes", short(np)) {
					for _, h := range c.sources(r, []*Term{np.args[1]}, g, "round.carry", "after No votes: proof") {
						c.ob(h.vals[0].op == "trec" && h.vals[0].args[1] == v.e.T(`cat("Unlock", IDr)`), "round.carry", "after No votes: proof", "gets %s", short(h.vals[0]))
					}
				}
			default:
				for _, h := range c.sources(r, []*Term{nv, np}, g, "round.carry", "after mixed votes") {
					v.carried(h, "round.carry")
				}
			}
		}
	}
	c.ob(n > 0, "round.state", "next round", "is never reached")
}

// carried: the value and proof of the next round are those of a valid Yes vote.
func (v *mvba) carried(g flow, rule string) {
	r := v.r
	V, S := g.vals[0], g.vals[1]
	if V.op == "mu" && S.op == "mu" && V.sym == S.sym {
		// kept by the handler: what it is set to when it is set
		li := r.loopOf(V)
		if !v.c.ob(li != nil, rule, "after mixed votes", "no loop sets %s", brief(V)) {
			return
		}
		hv := raw("mu", V.sym, V.iv, []*Term{V.args[0], li.k}, nil)
		hs := raw("mu", S.sym, S.iv, []*Term{S.args[0], li.k}, nil)
		set := 0
		ev := tFalse
		for _, l := range splitVals([]*Term{r.nextOf(li, hv), r.nextOf(li, hs)}, tTrue) {
			nv, ns := l.vals[0], l.vals[1]
			if nv == hv && ns == hs {
				continue
			}
			set++
			ev = bOr(ev, l.cond)
			for _, f := range v.c.sources(r, []*Term{nv, ns}, l.cond, rule, "Yes vote kept") {
				v.certified(f, f.vals[0], f.vals[1], v.IDl, "\x01", rule, "Yes vote kept")
			}
		}
		v.c.ob(set > 0, rule, "after mixed votes", "%s is never set", brief(V))
		// set before it is used: the condition of use has a counter that moves off zero only when the value is set
		ok := false
		for _, f := range g.from {
			for _, ca := range counterAtoms(f.pc, isCounter) {
				if r.loopOf(headMu(ca.X)) != li || !implies(f.pc, ge0(addc(ca.X, -1))) {
					continue
				}
				init := r.counterInit(li, ca.X)
				good := init == mkInt(0) || isAbsent(init)
				for _, l := range condLeaves(r.nextOf(li, ca.X), tTrue) {
					if x := simp2(l[1], l[0]); x != ca.X && !implies(l[0], ev) {
						good = false
					}
				}
				ok = ok || good
			}
		}
		v.c.ob(ok, rule, "after mixed votes", "%s may be used before a Yes vote has set it", brief(V))
		return
	}
	v.certified(g, V, S, v.IDl, "\x01", rule, "after mixed votes")
}

// flagCase is a kind of outcome of the vote.
type flagCase struct {
	kind string
	s    signal
}

// voteSignals lists the outcomes handed to the main flow by the handler of votes.
func (v *mvba) voteSignals() (*Effect, []flagCase) {
	r := v.r
	for _, x := range r.effects {
		if x.kind != "recv" || ctxID(x.ctx) != "main" || len(x.args) < 2 || !internalRecv(x.args[1]) {
			continue
		}
		var out []flagCase
		ok := true
		for _, s := range r.signalsOn(x.args[0]) {
			if s.e.kind != "send" || !isLiteral(s.e.args[1]) || !containsRecv(s.e.pc, "Vote") {
				ok = false
				break
			}
			out = append(out, flagCase{s: s})
		}
		if ok && len(out) > 0 {
			return x, out
		}
	}
	return nil, nil
}

func isLiteral(t *Term) bool { return t.op == "int" || t == tTrue || t == tFalse || t.op == "str" }

// flags checks the number of votes each outcome rests on.
func (v *mvba) flags() (no, yes, mixed *Term) {
	c, r := v.c, v.r
	_, fs := v.voteSignals()
	all := tFalse
	for _, f := range fs {
		all = bOr(all, f.s.e.pc)
	}
	for _, f := range fs {
		x := f.s.e
		m := mailMsg(x.pc)
		e := v.e.with("m", m)
		e = e.with("d", e.T(`unm("protobuf.Vote", m.Data)`), "L", v.rawLeader(x))
		vy := bAndN(asBool(e.T("d.Vote")), e.T(`bverr(pkc(P.SigPK), cat("Echo", IDr, u32(L), "\x01", sha512(d.Value)), d.Sig) == nil_`),
			e.T(`vperr(P.SigPK, cat("Echo", IDr, u32(L), "\x02", sha512(d.Value)), d.Sigshare) == nil_ && tidxerr(d.Sigshare) == nil_ && tidx(d.Sigshare) == m.Sender`))
		vn := bAndN(bNot(asBool(e.T("d.Vote"))), e.T(`bverr(pkc(P.SigPK), cat("\x00", IDr), d.Sig) == nil_`),
			e.T(`vperr(P.SigPK, cat("Unlock", IDr), d.Sigshare) == nil_ && tidxerr(d.Sigshare) == nil_ && tidx(d.Sigshare) == m.Sender`))
		given := tTrue
		if rc := r.recvIn(m); rc != nil {
			given = rc.pc
		}
		k := v.kindOf(x)
		t := Tally{g: x.pc, T: r.T("2*F+1"), sender: mkFld(m, "Sender"), free: freeLits(x.pc), given: given, exact: true}
		switch k {
		case "yes":
			t.valid = vy
			c.tally(r, "round.quorum", "Yes votes", t)
			yes = x.args[1]
		case "no":
			t.valid = vn
			c.tally(r, "round.quorum", "No votes", t)
			no = x.args[1]
		default:
			t.valid, t.exact = bOr(vy, vn), false
			c.tally(r, "round.quorum", "mixed votes", t)
			mixed = x.args[1]
			t.g, t.exact = all, true
			c.tally(r, "round.quorum", "all votes", t)
		}
	}
	return
}

// kindOf: what is handed over with the flag.
func (v *mvba) kindOf(x *Effect) string {
	k := "mixed"
	for _, y := range v.r.effects {
		if y.kind == "send" && y != x && ctxID(y.ctx) == ctxID(x.ctx) && sameTerm(y.pc, x.pc, tTrue) && y.args[1].op == "trec" {
			k = "no"
			if containsRecv(y.args[1].args[1], "Vote") {
				k = "yes"
			}
		}
	}
	return k
}

// flagCases lists the outcomes under which the main flow can be in state g.
func (v *mvba) flagCases(g *Term) []flagCase {
	x, fs := v.voteSignals()
	if x == nil || !implies(g, x.pc) {
		return []flagCase{{kind: "none"}}
	}
	var out []flagCase
	seen := map[string]bool{}
	for _, f := range fs {
		if unsat(subst1(g, x.args[1], f.s.e.args[1])) {
			continue
		}
		f.kind = v.kindOf(f.s.e)
		if !seen[f.kind] {
			seen[f.kind] = true
			out = append(out, f)
		}
	}
	return out
}

// stops: before the main flow waits for the broadcasts of a round it ends them, and each of them
// counts down however it ended.
func (v *mvba) stops() {
	c, r := v.c, v.r
	for _, w := range r.effects {
		if w.kind != "wg" || !hasSuffix(w.name, "Wait") || ctxID(w.ctx) != "main" || unsat(w.pc) {
			continue
		}
		for _, d := range r.effects {
			if d.kind != "wg" || !hasSuffix(d.name, "Done") || d.args[0] != w.args[0] {
				continue
			}
			m := map[*Term]*Term{}
			for _, l := range freeLits(d.pc) {
				if l.op == "not" {
					m[l.args[0]] = tFalse
				} else {
					m[l] = tTrue
				}
			}
			for _, a := range atomsOf(d.pc) {
				walk(a, func(x *Term) {
					if x.op == "marsherr" {
						m[a] = tTrue
					}
				})
			}
			c.ob(implies(tTrue, subst(d.pc, m)), "round.stop", "waiting", "the goroutine waited for at %s counts down only when %s", r.posStr(w.pos), short(d.pc))
			for _, n := range []string{"SPBSender", "SPBReceiver"} {
				for _, call := range r.calls(n) {
					if ctxID(call.ctx) != ctxID(d.ctx) {
						continue
					}
					hit := false
					for _, k := range r.effects {
						if k.kind == "callvalue" && len(k.args) > 0 && k.args[0].op == "cancelfn" && ctxID(k.ctx) == "main" && k.seq < w.seq && implies(w.pc, k.pc) {
							hit = hit || ancestor(k.args[0].args[0], call.args[0])
						}
					}
					c.ob(hit, "round.stop", n, "the round waits for it at %s without ending it", r.posStr(w.pos))
				}
			}
		}
	}
}

// ancestor: cancelling the context a also cancels b.
func ancestor(a, b *Term) bool {
	for b != nil && b.op == "ctxc" {
		if a == b {
			return true
		}
		if len(b.args) == 0 {
			return false
		}
		b = b.args[0]
	}
	return a == b
}

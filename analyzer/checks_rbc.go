package main

func init() { checks["P03"] = checkRBC; checks["P04"] = checkRBCReady }

// checkRBCReady: when Ready messages are sent and how the delivery quorum is counted.
func checkRBCReady(c *Ck) {
	r := c.run("party.HonestParty.RBCReceive")
	ec := r.one("RBCEcho", "RBC.recv")
	rd := r.one("RBCReady", "RBC.recv")
	if ec == nil || rd == nil {
		return
	}
	m, q := ec.args[1], rd.args[1]
	id := mkSym("arg0")
	for _, x := range []*Effect{ec, rd} {
		c.ob(x.args[0].args[1] == id, "RBC.mailbox", x.args[0].String(), "receives from instance %s", brief(x.args[0].args[1]))
	}
	var echoRoot *Term
	ready := r.sends("RBCReady")
	nE, nA := 0, 0
	for _, s := range ready {
		c.ob(s.all && mkFld(s.msg, "Id") == id && mkFld(s.msg, "Sender") == r.T("P.PID"), "RBC.ready-to-all", "RBCReady", "Ready message %s is not broadcast to all in this instance", brief(s.msg))
		if !c.ob(s.payload != nil, "RBC.ready-payload", "RBCReady", "payload is %s", brief(s.data)) {
			continue
		}
		h, sh := s.f("Hash"), s.f("M")
		if !containsRecv(s.pc, "RBCReady") {
			nE++
			// 2F+1 Echo messages with the same hash and the same shard, from distinct senders
			e := r.env.with("m", m)
			c.tally(r, "RBC.ready-on-echo", "RBCReady after Echo", Tally{g: s.pc, T: r.T("2*F+1"), valid: tTrue, sender: mkFld(m, "Sender"), exact: true,
				key: []*Term{e.T(`unm("protobuf.RBCEcho", m.Data).Hash`), e.T(`unm("protobuf.RBCEcho", m.Data).M`)}, root: &echoRoot})
			c.eq(h, e.T(`unm("protobuf.RBCEcho", m.Data).Hash`), s.pc, "RBC.ready-payload", "RBCReady after Echo: hash", "hash")
			c.eq(sh, e.T(`unm("protobuf.RBCEcho", m.Data).M`), s.pc, "RBC.ready-payload", "RBCReady after Echo: shard", "shard")
			continue
		}
		nA++
		e := r.env.with("m", q)
		hash := e.T(`unm("protobuf.RBCReady", m.Data).Hash`)
		c.tally(r, "RBC.ready-on-ready", "RBCReady after Ready", Tally{g: othersDone(s.pc), T: r.T("F+1"), valid: tTrue, sender: mkFld(q, "Sender"), key: []*Term{hash}, exact: true})
		// what it waits for on a channel is sent when the F+1-st matching Echo message is counted
		for _, rv := range r.effects {
			if rv.kind != "recv" || !internalChan(rv.args[0]) || !containsTerm(s.pc, rv.args[1]) {
				continue
			}
			for _, sg := range r.signalsOn(rv.args[0]) {
				e := r.env.with("m", m)
				c.tally(r, "RBC.ready-on-ready", "word of F+1 Echo messages", Tally{g: sg.e.pc, T: r.T("F+1"), valid: tTrue, sender: mkFld(m, "Sender"), exact: true,
					key: []*Term{e.T(`unm("protobuf.RBCEcho", m.Data).Hash`), e.T(`unm("protobuf.RBCEcho", m.Data).M`)}, root: &echoRoot})
			}
		}
		c.eq(h, hash, s.pc, "RBC.ready-payload", "RBCReady after Ready: hash", "hash")
		// the shard has F+1 matching Echo messages for this very hash
		ok := false
		for _, ca := range counterAtoms(s.pc, isSharedCounter) {
			X := ca.X
			if X.op != "sel" || X.args[1] != sh || X.args[0].op != "shared" {
				continue
			}
			root, path := locParts(X.args[0].args[0])
			if len(path) == 1 && sameTerm(path[0], hash, s.pc) && (echoRoot == nil || root == echoRoot) && implies(s.pc, ge0(sub(X, r.T("F+1")))) {
				ok = true
				echoRoot = root
			}
		}
		c.ob(ok, "RBC.ready-on-ready", "RBCReady after Ready: shard", "the shard %s is not backed by F+1 matching Echo messages for hash %s when %s", brief(sh), brief(hash), brief(s.pc))
	}
	// a Ready message counts as sent only when one is
	sent := map[*Term]bool{}
	any := tFalse
	for _, s := range ready {
		any = bOr(any, s.pc)
		for _, a := range atomsOf(s.pc) {
			for _, u := range mus(a) {
				if root, path := locParts(u.args[0]); a.op == "batom" && len(path) == 0 && implies(s.pc, bNot(a)) {
					sent[root] = true
				}
			}
		}
	}
	for _, w := range r.ctxWrites {
		if sent[w.root] && w.val != nil && w.barrier == "" {
			c.imp(bAnd(w.guard, asBool(w.val)), any, "RBC.ready-flag", "RBCReady: "+r.posStr(w.pos), "noting that Ready was sent")
		}
	}
	c.ob(nE >= 1 && nA >= 1, "RBC.ready-rules", "RBCReady", "%d sends on Echo quorum and %d on Ready amplification, want both", nE, nA)
	// the tally of Echo messages is written by the Echo handler only
	for _, w := range r.ctxWrites {
		if w.root == echoRoot && len(w.held) == 0 && w.barrier == "" {
			c.ob(false, "RBC.echo-tally", "echo tally", "written at %s without a lock", r.posStr(w.pos))
		}
	}
	// delivery starts at 2F+1 Ready messages with the same hash, from distinct senders
	e := r.env.with("m", q)
	hash := e.T(`unm("protobuf.RBCReady", m.Data).Hash`)
	n := 0
	for _, x := range r.effects {
		if (x.kind == "send" || x.kind == "close") && x.args[0].op != "mailbox" && containsRecv(x.pc, "RBCReady") {
			n++
			c.tally(r, "RBC.deliver-quorum", "start of decoding", Tally{g: othersDone(x.pc), T: r.T("2*F+1"), valid: tTrue, sender: mkFld(q, "Sender"), key: []*Term{hash}, exact: true})
		}
	}
	c.ob(n == 1, "RBC.deliver-quorum", "start of decoding", "%d signals to the decoder, want 1", n)
}

// othersDone is g when the goroutines of the same member have told or stored what g asks of them.
func othersDone(g *Term) *Term {
	for _, a := range atomsOf(g) {
		other := false
		walk(a, func(x *Term) {
			other = other || x.op == "shared" || x.op == "bshared" || x.op == "recv" && internalChan(x.args[0])
		})
		if other {
			g = bOr(subst(g, map[*Term]*Term{a: tTrue}), subst(g, map[*Term]*Term{a: tFalse}))
		}
	}
	return g
}

// one is the only receive site of a message type.
func (r *Run) one(typ, rule string) *Effect {
	rs := r.recvs(typ)
	if !r.ck.ob(len(rs) == 1, rule, typ, "%d receive sites for %s, want 1", len(rs), typ) {
		return nil
	}
	return rs[0]
}

// retCase is one way for a function to return: the condition and the values.
type retCase struct {
	pc   *Term
	vals []*Term
}

// retLeaves splits the first returned value of a run.
func (r *Run) retLeaves() []retCase {
	var out []retCase
	for _, e := range r.effects {
		if e.kind != "return" || len(e.args) == 0 {
			continue
		}
		for _, l := range condLeaves(e.args[0], e.pc) {
			out = append(out, retCase{pc: l[0], vals: append([]*Term{l[1]}, e.args[1:]...)})
		}
	}
	return out
}

// openFirst replaces "the first iteration at which cond holds" by a fresh iteration at which cond holds.
func openFirst(t *Term) (*Term, *Term) { return openFirstAt(t, nil) }

func openFirstAt(t, x *Term) (*Term, *Term) {
	f := outerFirst(t)
	if f == nil {
		return t, tTrue
	}
	n := f.args[0]
	if x == nil {
		x = idx("r", mkInt(0), n)
	}
	cond := instBinder(f, x)[0]
	t2, c2 := openFirstAt(subst(t, map[*Term]*Term{f: x}), nil)
	return t2, bAnd(cond, c2)
}

// room: d is the length of something minus L.
func room(d, L *Term) bool {
	for _, y := range d.args {
		if y != L && d == sub(y, L) {
			return true
		}
	}
	return false
}

func outerFirst(t *Term) *Term {
	if t.op == "first" {
		return t
	}
	if isBinder(t.op) {
		return nil
	}
	for _, a := range t.args {
		if f := outerFirst(a); f != nil {
			return f
		}
	}
	return nil
}

// checkRBC: dispersal and integrity of the delivered message.
func checkRBC(c *Ck) {
	r := c.run("party.HonestParty.RBCReceive")
	pr := r.one("RBCPropose", "RBC.recv")
	if pr != nil {
		ss := r.sends("RBCEcho")
		if c.ob(len(ss) == 1, "RBC.echo", "RBCEcho", "%d Echo sends, want 1", len(ss)) {
			s := ss[0]
			e := r.env.with("d", mkFld(pr.args[1], "Data"))
			c.eq(pr.args[0], e.with("id", mkSym("arg0")).T(`mailbox("RBCPropose", id)`), tTrue, "RBC.mailbox", "RBCPropose", "mailbox")
			c.ob(s.all && s.dest != nil && len(s.loops) == 0, "RBC.echo", "RBCEcho: recipients", "Echo is not sent once to each member: %s", brief(s.dest))
			c.eq(s.pc, e.T("rssplerr(rs(2*F, F+1), d) == nil_"), tTrue, "RBC.echo", "RBCEcho: condition", "condition of sending")
			c.eq(mkFld(s.msg, "Id"), mkSym("arg0"), s.pc, "RBC.echo", "RBCEcho: instance", "instance ID")
			c.eq(mkFld(s.msg, "Sender"), r.T("P.PID"), s.pc, "RBC.echo", "RBCEcho: sender", "sender")
			if c.ob(s.payload != nil, "RBC.echo", "RBCEcho: payload", "payload is %s", brief(s.data)) && s.dest != nil {
				c.eq(s.f("Hash"), e.T("cat(sha256(d), u32(len(d)))"), s.pc, "RBC.echo", "RBCEcho: hash", "hash and length of the proposal")
				sh := s.f("M")
				ok := sh.op == "sel" && sh.args[1] == s.dest && sh.args[0].op == "rsenc"
				if ok {
					x := sh.args[0].args[1]
					spl := e.T("rssplit(rs(2*F, F+1), d)")
					ok = sh.args[0].args[0] == e.T("rs(2*F, F+1)") && (x == spl || x == e.with("x", spl).T("sub(x, 0, 3*F+1)"))
				}
				c.ob(ok, "RBC.echo", "RBCEcho: shard", "member i gets %s, want shard i of the (2F, F+1) Reed-Solomon code of the proposal", brief(sh))
			}
		}
	}
	rd := r.one("RBCReady", "RBC.recv")
	if rd == nil {
		return
	}
	q := rd.args[1]
	hash := r.env.with("m", q).T(`unm("protobuf.RBCReady", m.Data).Hash`)
	n := 0
	for _, rc := range r.retLeaves() {
		if rc.vals[0] == tNil {
			continue
		}
		v, cond := openFirst(rc.vals[0])
		cond = bAnd(cond, tTrue)
		val := simp2(r.read(v, r.typeNamed("protobuf", "Message")), cond)
		d := simp2(mkFld(val, "Data"), cond)
		n++
		if !c.ob(d.op == "fld" && d.args[0].op == "unm", "RBC.output", "delivered message", "the delivered message is %s, want the decoding of the reconstructed bytes", brief(d)) {
			continue
		}
		X := d.args[0].args[0]
		for _, f := range []string{"Type", "Id", "Sender"} {
			c.eq(mkFld(val, f), mkFld(d.args[0], f), cond, "RBC.output", "delivered message: "+f, f)
		}
		// the hash it was checked against
		var H *Term
		for _, a := range atomsOf(cond) {
			if a.op != "eq" || !implies(cond, a) {
				continue
			}
			for i := 0; i < 2; i++ {
				if sameTerm(a.args[i], mk("sha256", "", X), cond) {
					o := a.args[1-i]
					if o.op == "sub" && o.args[1].isInt(0) && o.args[2].isInt(32) {
						H = o.args[0]
					}
				}
			}
		}
		if !c.ob(H != nil, "RBC.integrity", "delivered message", "a message is delivered although the hash of its bytes was not compared equal to the agreed hash; condition %s", brief(cond)) {
			continue
		}
		// only the announced number of bytes
		okLen := X.op == "sub" && X.args[1].isInt(0) && X.args[2] == r.env.with("H", H).T("deu32(sub(H, 32, 4))")
		c.ob(okLen, "RBC.length", "delivered message", "the delivered bytes are not the announced prefix of the reconstruction: %s", brief(X))
		// the hash is the one with the most Ready messages, and those reach the quorum
		c.ob(isSharedCounter(H), "RBC.agreed-hash", "delivered message", "checked against %s, which is not the hash chosen by the Ready handler", brief(H))
		enough := false
		for _, ca := range counterAtoms(cond, isSharedCounter) {
			if implies(cond, ge0(sub(ca.X, r.T("2*F+1")))) && r.readyCount(c, ca.X, H, rd, hash) {
				enough = true
			}
		}
		c.ob(enough, "RBC.agreed-quorum", "delivered message", "delivered without 2F+1 Ready messages for its hash; condition %s", brief(cond))
		// the first attempt is made with 2F+1 Ready messages, and nothing but the hash and the length
		// of what was reconstructed makes it fail
		if _, cond0 := openFirstAt(rc.vals[0], mkInt(0)); okLen {
			L := X.args[2]
			fits := map[*Term]*Term{}
			enough := tTrue
			for _, a := range atomsOf(cond0) {
				switch {
				case a.op == "eq" && (a.args[0].op == "sha256" && a.args[1] == r.env.with("H", H).T("sub(H, 0, 32)") || a.args[1].op == "sha256" && a.args[0] == r.env.with("H", H).T("sub(H, 0, 32)")):
					fits[a] = tTrue
				case a.op == "ge0" && room(a.args[0], L):
					fits[a] = tTrue
				}
			}
			for _, ca := range counterAtoms(cond0, isSharedCounter) {
				if ca.X.op == "shared" && ca.X != L {
					enough = bAnd(enough, ge0(sub(ca.X, r.T("2*F+1"))))
				}
			}
			c.imp(enough, simp2(subst(cond0, fits), enough), "RBC.attempt", "first attempt", "delivery on 2F+1 Ready messages")
		}
		// the code used to reconstruct
		code := r.T("rs(2*F, F+1)")
		nc, bad := 0, ""
		walk(X, func(x *Term) {
			if x.op == "rs" {
				nc++
				if x != code {
					bad = brief(x)
				}
			}
		})
		c.ob(nc > 0 && bad == "", "RBC.code", "decoder", "the decoder uses code %s, the encoder %s", bad, brief(code))
	}
	c.ob(n == 1, "RBC.output", "return", "%d ways of delivering a message, want 1", n)
	// shards are filed under the sender's index and the hash of their Ready message
	li := r.loopInfoOf(rd)
	nw := 0
	for _, e := range r.ctxWrites {
		if e.barrier != "" || e.val == nil || !containsRecv(e.val, "RBCReady") {
			continue
		}
		walk(e.val, func(x *Term) {
			if x.op == "struct" && structName(x) == "party.mReceived" {
				nw++
				c.eq(mkFld(x, "j"), mkFld(q, "Sender"), e.guard, "RBC.shard-index", "shard store: index", "index of a stored shard")
				c.eq(mkFld(x, "mj"), r.env.with("m", q).T(`unm("protobuf.RBCReady", m.Data).M`), e.guard, "RBC.shard-index", "shard store: shard", "stored shard")
				c.ob(len(e.path) > 0 && e.path[0] == hash, "RBC.shard-index", "shard store: key", "stored under %s", pathStr(e.path))
			}
		})
	}
	_ = li
	c.ob(nw > 0, "RBC.shard-index", "shard store", "no store of received shards found")
}

// readyCount: N never exceeds the number of Ready messages received for the hash H.
func (r *Run) readyCount(c *Ck, N, H *Term, rd *Effect, hash *Term) bool {
	li := r.loopInfoOf(rd)
	if li == nil || N.op != "shared" || H.op != "shared" {
		return false
	}
	rn, pn := locParts(N.args[0])
	rh, ph := locParts(H.args[0])
	n1 := simp2(li.snap.readAt(rn, pn, nil, tTrue), tTrue)
	h1 := simp2(li.snap.readAt(rh, ph, nil, tTrue), tTrue)
	n0 := muTerm("mu", li.id, rn, pn, li.k)
	h0 := muTerm("mu", li.id, rh, ph, li.k)
	for _, l := range condLeaves(mkList(n1, h1), tTrue) {
		_ = l
	}
	ok := true
	for _, ln := range condLeaves(n1, tTrue) {
		for _, lh := range condLeaves(h1, ln[0]) {
			nv, hv := simp2(ln[1], lh[0]), simp2(lh[1], lh[0])
			if nv == n0 && hv == h0 {
				continue
			}
			// a new maximum: the length of the list of this hash
			isLen := false
			for _, w := range mus(nv) {
				if containsTerm(w, hash) && sameTerm(nv, addc(mkLen(w), 1), lh[0]) {
					isLen = true
				}
			}
			if !isLen || hv != hash {
				ok = false
			}
		}
	}
	return ok
}

// loopInfoOf is the innermost loop an effect is in.
func (r *Run) loopInfoOf(e *Effect) *loopInfo {
	for i := len(e.loops) - 1; i >= 0; i-- {
		for _, li := range r.loopInfos {
			if li.k == e.loops[i].Sym {
				return li
			}
		}
	}
	return nil
}

func containsRecv(t *Term, typ string) bool {
	f := false
	walk(t, func(x *Term) {
		if x.op == "recv" && len(x.args) > 0 && x.args[0].op == "mailbox" && x.args[0].args[0] == mkStr(typ) {
			f = true
		}
	})
	return f
}

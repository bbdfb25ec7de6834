package main

func init() { checks["P19"] = checkComm }

// keeping leaves the named functions uninterpreted.
func keeping(names ...string) func(*Interp) {
	return func(it *Interp) {
		for _, n := range names {
			it.opaque[n] = true
		}
	}
}

func app(name string, args ...*Term) *Term { return raw("app", name, 0, args, nil) }

// kinds lists the effects of the given kinds that can happen.
func (r *Run) kinds(ks ...string) []*Effect {
	var out []*Effect
	for _, e := range r.effects {
		for _, k := range ks {
			if e.kind == k && !unsat(e.pc) {
				out = append(out, e)
			}
		}
	}
	return out
}

// everyOnce: the loop variable of q makes x run over 0..n-1, each value once.
func everyOnce(x *Term, q QVar, n *Term) bool {
	if q.N == tOmega || sub(q.N, n) != mkInt(0) {
		return false
	}
	switch coefOf(x, q.Sym) {
	case 1:
		return sub(x, q.Sym) == mkInt(0)
	case -1:
		return sub(add(x, q.Sym), addc(n, -1)) == mkInt(0)
	}
	return false
}

func checkComm(c *Ck) {
	c.dispatcher()
	c.mailboxes()
	c.endpoints()
	for _, x := range []struct{ fn, ch, all string }{
		{"Send", "sendChannels", "Broadcast"},
		{"SendToNextCommittee", "sendToNextChannels", "BroadcastToNextCommittee"},
	} {
		c.sendTo("party.HonestParty."+x.fn, x.ch)
		c.sendAll("party.HonestParty."+x.all, x.ch)
	}
}

// dispatcher: every received message of a member reaches the mailbox of its type and instance.
func (c *Ck) dispatcher() {
	r := c.run("core.MakeDispatcheChannels")
	M := c.returned(r, "dispatch.deliver")
	in, n := mkSym("arg0"), mkSym("arg1")
	rs, ss := r.kinds("recv"), r.kinds("send", "selectcase")
	if M == nil || !c.ob(len(rs) == 1 && rs[0].args[0] == in, "dispatch.deliver", "input", "%d sites take received messages, want 1", len(rs)) {
		return
	}
	if !c.ob(len(ss) == 1 && ss[0].kind == "send", "dispatch.deliver", "mailbox", "%d sites (or a choice) deliver messages, want 1", len(ss)) {
		return
	}
	rc, s := rs[0], ss[0]
	m := rc.args[1]
	c.ob(ctxID(rc.ctx) != "main" && len(rc.ctx.vars) == 0 && s.ctx == rc.ctx, "dispatch.order", "dispatcher", "messages are not delivered by the one goroutine that takes them")
	li := r.loopInfoOf(rc)
	if !c.ob(li != nil && li.ctx == rc.ctx && r.loopInfoOf(s) == li && len(rc.loops) == 1 && len(s.loops) == 1, "dispatch.deliver", "mailbox", "is not served once for each message taken") {
		return
	}
	c.ob(implies(tTrue, li.again()), "dispatch.deliver", "next message", "is only taken when %s", short(simplify(li.again(), tTrue)))
	box := mk("smval", "", mk("smval", "", M, mkFld(m, "Type")), mkFld(m, "Id"))
	c.ob(s.args[0] == box, "dispatch.deliver", "mailbox", "is %s, want the one of the message's type and instance", short(s.args[0]))
	c.ob(s.args[1] == m, "dispatch.deliver", "message", "is %s, want the one received", short(s.args[1]))
	member := bOr(bNot(ge0(sub(mkFld(m, "Sender"), n))), mkEq(mkFld(m, "Type"), mkStr("VSSSend")))
	g := simp2(s.pc, tTrue)
	c.ob(implies(member, g), "dispatch.deliver", "message of a member", "is only delivered when %s", short(simplify(g, member)))
	c.ob(implies(g, member), "dispatch.member", "message of no member", "is delivered when %s", short(simplify(g, bNot(member))))
	c.slots(r, M, mkFld(m, "Type"), mkFld(m, "Id"), n, rc.seq, s.seq, li.k)
}

// slots: the two levels of the table of mailboxes are filled by load-or-store only.
func (c *Ck) slots(r *Run, M, typ, id, n *Term, from, to int, k *Term) {
	outer := mk("smval", "", M, typ)
	for _, e := range r.kinds("smstore", "smother") {
		c.ob(false, "dispatch.slot", "table of mailboxes", "is changed other than by load-or-store at %s", r.posStr(e.pos))
	}
	seen := [2]bool{}
	for _, e := range r.kinds("smloadorstore") {
		if e.args[0] == M && e.args[1] == typ {
			seen[0] = true
			root, path := locParts(e.args[2])
			t := r.rootType[root.sym]
			c.ob(len(path) == 0 && t != nil && typName(t) == "sync.Map" && (k == nil || containsTerm(e.args[2], k)), "dispatch.slot", "table of a type", "may be %s, want a new one", short(e.args[2]))
		} else if c.ob(e.args[0] == outer && e.args[1] == id, "dispatch.slot", "table of mailboxes", "gets an entry for %s under %s", short(e.args[1]), short(e.args[0])) {
			seen[1] = true
			ok := false
			for _, mkc := range r.kinds("mkchan") {
				if mkc.args[0] == e.args[2] && (k == nil || containsTerm(e.args[2], k)) {
					ok = true
					c.eq(mkc.args[1], mk("mulint", "", n, n), e.pc, "dispatch.slot", "new mailbox", "capacity")
				}
			}
			c.ob(ok, "dispatch.slot", "mailbox", "may be %s, want a new channel", short(e.args[2]))
		}
	}
	c.ob(seen[0] && seen[1], "dispatch.slot", "table of mailboxes", "is not filled by load-or-store on both levels")
}

func (c *Ck) mailboxes() {
	r := c.runOpt("party.HonestParty.GetMessage", "", nil)
	M := r.T("P.dispatchChannels")
	v := c.returned(r, "dispatch.mailbox")
	if v == nil {
		return
	}
	typ, id := mkSym("arg0"), mkSym("arg1")
	box := mk("smval", "", mk("smval", "", M, typ), id)
	c.ob(v == box, "dispatch.mailbox", "mailbox", "is %s, want the one the dispatcher uses", short(v))
	c.slots(r, M, typ, id, r.T("P.N"), 0, 0, nil)
}

// endpoints: where the messages come from and go to.
func (c *Ck) endpoints() {
	r := c.runOpt("party.HonestParty.InitReceiveChannel", "", keeping("core.MakeDispatcheChannels", "core.MakeReceiveChannel"))
	want := app("core.MakeDispatcheChannels", app("core.MakeReceiveChannel", r.T("P.portList[P.PID]")), r.T("P.N"))
	c.eq(r.final("P.dispatchChannels"), want, tTrue, "address.receive", r.name, "mailboxes")
	c.noOtherState(r, "address.receive", "P", "P.dispatchChannels")
	for _, x := range []struct{ fn, ch, ip, port string }{
		{"InitSendChannel", "sendChannels", "ipList", "portList"},
		{"InitSendToNextChannel", "sendToNextChannels", "ipListNext", "portListNext"},
	} {
		r := c.runOpt("party.HonestParty."+x.fn, "", keeping("core.MakeSendChannel"))
		i := idx("i", mkInt(0), r.T("P.N"))
		got := r.final("P."+x.ch+"[i]", "i", i)
		want := app("core.MakeSendChannel", r.T("P."+x.ip+"[i]", "i", i), r.T("P."+x.port+"[i]", "i", i))
		c.eq(got, want, tTrue, "address.send", x.fn, "channel of member i")
		c.noOtherState(r, "address.send", "P", "P."+x.ch)
	}
}

func (c *Ck) sendTo(name, field string) {
	r := c.runOpt(name, "", inlining(name))
	ss := r.kinds("send", "selectcase")
	if !c.ob(len(ss) == 1 && ss[0].kind == "send" && ctxID(ss[0].ctx) == "main" && len(ss[0].loops) == 0, "address.to", name, "%d sites (or a choice, loop or goroutine) send the message, want 1", len(ss)) {
		return
	}
	s := ss[0]
	ch := r.T("P." + field)
	i := idx("i", mkInt(0), r.T("P.N"))
	ready := mkForall(r.T("P.N"), i, bNot(mkEq(tNil, mkSel(ch, i))))
	g := bAnd(ready, bNot(ge0(sub(mkSym("arg1"), r.T("P.N")))))
	c.ob(s.args[0] == mkSel(ch, mkSym("arg1")), "address.to", name, "sends on %s", short(s.args[0]))
	c.ob(s.args[1] == mkSym("arg0"), "address.to", name, "sends %s", short(s.args[1]))
	c.ob(implies(g, s.pc), "address.to", name, "only sends when %s", short(s.pc))
	c.ob(implies(s.pc, bNot(mkEq(tNil, s.args[0]))), "address.to", name, "may send on a channel that is not set up when %s", short(s.pc))
	v := c.returned(r, "address.to")
	c.ob(v != nil && implies(s.pc, mkEq(tNil, v)) && implies(bNot(s.pc), bNot(mkEq(tNil, v))), "address.error", name, "the error %s does not tell whether the message was sent", short(v))
}

func (c *Ck) sendAll(name, field string) {
	r := c.runOpt(name, "", inlining("party.HonestParty.Send", "party.HonestParty.SendToNextCommittee", name))
	ss := r.kinds("send", "selectcase")
	if !c.ob(len(ss) == 1 && ss[0].kind == "send" && ctxID(ss[0].ctx) == "main", "address.all", name, "%d sites (or a choice or goroutine) send the message, want 1", len(ss)) {
		return
	}
	s := ss[0]
	ch := r.T("P." + field)
	ok := len(s.loops) == 1 && s.args[0].op == "sel" && s.args[0].args[0] == ch && everyOnce(s.args[0].args[1], s.loops[0], r.T("P.N"))
	c.ob(ok, "address.all", name, "sends on %s, want each member's channel once", short(s.args[0]))
	c.ob(s.args[1] == mkSym("arg0"), "address.all", name, "sends %s", short(s.args[1]))
	i := idx("i", mkInt(0), r.T("P.N"))
	ready := mkForall(r.T("P.N"), i, bNot(mkEq(tNil, mkSel(ch, i))))
	c.ob(implies(ready, s.pc), "address.all", name, "only sends when %s", short(simplify(s.pc, ready)))
	v := c.returned(r, "address.all")
	c.ob(v != nil && implies(ready, mkEq(tNil, v)) && implies(bNot(ready), bNot(mkEq(tNil, v))), "address.error", name, "the error %s does not tell whether the message was sent", short(v))
}

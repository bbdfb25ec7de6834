package main

import "strings"

func init() { checks["P20"] = checkWire }

// protocolRuns analyses every entry point of the protocols.
func (c *Ck) protocolRuns() []*Run {
	var out []*Run
	for _, f := range []string{"Client.Share", "HonestParty.VSSShareReceive", "HonestParty.PrepareSend", "HonestParty.PrepareReceive", "HonestParty.ShareReduceSend",
		"HonestParty.ShareReduceReceive", "HonestParty.ProactivizeAndShareDist", "HonestParty.RBCSend", "HonestParty.RBCReceive", "MainProcess"} {
		out = append(out, c.runOpt("party."+f, "", inlining("party."+f)))
	}
	out = append(out, c.runOpt("party.SPBSender", "", inlining("party.SPBSender", "party.Sender")), c.runOpt("party.SPBReceiver", "", inlining("party.SPBReceiver", "party.Receiver")))
	return out
}

// everyTerm visits the terms of everything that can happen or be stored.
func (r *Run) everyTerm(f func(*Term)) {
	seen := map[*Term]bool{}
	var v func(t *Term)
	v = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			v(a)
		}
	}
	for _, e := range r.effects {
		if unsat(e.pc) {
			continue
		}
		v(e.pc)
		for _, a := range e.args {
			v(a)
		}
	}
	for _, w := range r.mem.jent {
		v(w.val)
		v(w.guard)
	}
	for _, w := range r.ctxWrites {
		v(w.val)
		v(w.guard)
	}
}

var agreementTypes = []string{"Value", "Echo", "Lock", "Finish", "Done", "Halt", "PreVote", "Vote"}

func checkWire(c *Ck) {
	enc, dec := c.run("core.Encapsulation"), c.run("core.Decapsulation")
	env, out := c.returned(enc, "wire.encode"), c.returned(dec, "wire.decode")
	if env == nil || out == nil {
		return
	}
	mt := enc.typeNamed("protobuf", "Message")
	a := func(i string) *Term { return mkSym("arg" + i) }
	for _, T := range agreementTypes {
		is := mkEq(a("0"), mkStr(T))
		g := bAnd(is, mkEq(tNil, mk("marsherr", "", a("3"))))
		given := map[*Term]*Term{a("0"): mkStr(T)}
		g = subst(g, given)
		m := simp2(subst(enc.read(env, mt), given), g)
		for _, x := range []struct {
			f string
			v *Term
		}{{"Type", mkStr(T)}, {"Id", a("1")}, {"Sender", a("2")}, {"Data", raw("marshal", "protobuf."+T, 0, []*Term{a("3")}, nil)}} {
			v := mkFld(m, x.f)
			if v == raw("marshal", "?", 0, []*Term{a("3")}, nil) {
				continue // the caller's message, whatever its type
			}
			c.eq(v, x.v, g, "wire.encode", T+"."+x.f, "field")
		}
		for _, e := range enc.kinds("fatal") {
			c.ob(unsat(bAnd(subst(e.pc, given), g)), "wire.encode", T, "the process ends when %s", short(simplify(e.pc, g)))
		}
		loc := subst(out, given)
		pt := dec.typeNamed("protobuf", T)
		c.eq(subst(dec.read(loc, pt), given), mk("unm", "protobuf."+T, mkFld(a("1"), "Data")), tTrue, "wire.decode", T, "payload")
	}
	c.wireTypes()
}

// wireTypes: what is sent under a message type is what its readers decode.
func (c *Ck) wireTypes() {
	type use struct {
		r    *Run
		what string
	}
	sent, read := map[string][]use{}, map[string][]use{} // message type -> payload types
	reader, next := map[string]bool{}, map[string]map[bool]bool{}
	add := func(m map[string][]use, typ, what string, r *Run) {
		for _, u := range m[typ] {
			if u.what == what {
				return
			}
		}
		m[typ] = append(m[typ], use{r, what})
	}
	for _, r := range c.protocolRuns() {
		for _, s := range r.allSends() {
			if strings.HasPrefix(s.typ, "?") {
				continue
			}
			if next[s.typ] == nil {
				next[s.typ] = map[bool]bool{}
			}
			next[s.typ][s.next] = true
			old := r.name == "party.HonestParty.PrepareSend" || r.name == "party.HonestParty.ShareReduceSend"
			c.ob(s.next == old, "wire.committee", s.typ, "is sent to the wrong committee in %s", r.name)
			switch {
			case s.data.op == "marshal":
				add(sent, s.typ, s.data.sym, r)
			default:
				add(sent, s.typ, "bytes", r)
			}
		}
		r.everyTerm(func(t *Term) {
			if t.op == "mailbox" && t.args[0].op == "str" {
				reader[t.args[0].sym] = true
			}
			if (t.op == "unm" || t.op == "unmerr") && len(t.args) == 1 && t.args[0].op == "fld" && t.args[0].sym == "Data" {
				for _, m := range r.settled(t.args[0].args[0]) {
					if m.op == "recv" && m.args[0].op == "mailbox" && m.args[0].args[0].op == "str" {
						add(read, m.args[0].args[0].sym, t.sym, r)
					}
				}
			}
		})
	}
	for _, typ := range sortedKeys(sent) {
		us := sent[typ]
		if c.ob(reader[typ], "wire.reader", typ, "is sent in %s but no member ever takes it from its mailbox", us[0].r.name) {
			c.ob(len(us) == 1, "wire.payload", typ, "is sent with payloads %s and %s", us[0].what, us[len(us)-1].what)
			for _, rd := range read[typ] {
				c.ob(rd.what == us[0].what, "wire.payload", typ, "is sent as %s in %s but read as %s in %s", us[0].what, us[0].r.name, rd.what, rd.r.name)
			}
		}
		c.ob(len(next[typ]) == 1, "wire.committee", typ, "is sent to both committees")
	}
	for _, typ := range sortedKeys(reader) {
		c.ob(sent[typ] != nil, "wire.sender", typ, "is waited for but never sent")
	}
}

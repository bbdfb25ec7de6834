package main

import "go/types"

func init() {
	checks["P18"] = checkFraming
}

// connOf is the connection a method of its embedded part is called on.
func connOf(t *Term) *Term {
	root, path := locParts(t)
	if n := len(path); n > 0 && path[n-1] == fieldElem("conn") {
		t = root
		for _, p := range path[:n-1] {
			t = extend(t, p)
		}
	}
	for t.op == "fld" && t.sym == "conn" {
		t = t.args[0]
	}
	return t
}

// settled lists the values that a variable kept by a retry loop may end up with.
func (r *Run) settled(t *Term) []*Term {
	if t.op == "ite" {
		return append(r.settled(t.args[1]), r.settled(t.args[2])...)
	}
	if t.op != "mu" {
		return []*Term{t}
	}
	li := r.loopOf(t)
	if li == nil {
		return []*Term{t}
	}
	h := t
	if t.args[1] != li.k {
		h = raw("mu", t.sym, 0, []*Term{t.args[0], li.k}, nil)
	}
	var out []*Term
	for _, l := range append(condLeaves(r.nextOf(li, h), tTrue), condLeaves(r.counterInit(li, h), tTrue)...) {
		if v := l[1]; v != h && v != t && v != tNil {
			out = append(out, v)
		}
	}
	return out
}

// opened: the connection or listener t was opened by op with the address addr.
func (c *Ck) opened(r *Run, t *Term, op string, addr *Term, site string) {
	vs := r.settled(t)
	c.ob(len(vs) > 0, "frame.peer", site, "is never opened")
	for _, v := range vs {
		a := ""
		walk(v, func(x *Term) {
			if x.op == "tcpaddr" && x.args[1] == addr {
				a = x.op
			}
		})
		hit := v.op == op && (a != "" || len(v.args) > 1 && v.args[1] == addr)
		c.ob(hit, "frame.peer", site, "is %s, not opened for %s", short(v), short(addr))
	}
}

// returned is the one value a function returns.
func (c *Ck) returned(r *Run, rule string) *Term {
	var out *Term
	for _, x := range r.effects {
		if x.kind == "return" && ctxID(x.ctx) == "main" && len(x.args) > 0 && !unsat(x.pc) {
			if out != nil && out != x.args[0] {
				c.ob(false, rule, r.name, "returns %s and %s", short(out), short(x.args[0]))
			}
			out = x.args[0]
		}
	}
	c.ob(out != nil, rule, r.name, "returns nothing")
	return out
}

func checkFraming(c *Ck) {
	c.frameSend()
	c.frameReceive()
	// the conversions both sides use
	u := mkSym("arg0")
	for _, x := range []struct {
		fn   string
		want *Term
	}{
		{"utils.IntToBytes", mk("u32be", "", u)},
		{"utils.Uint32ToBytes", mk("u32be", "", u)},
		{"utils.BytesToInt", mk("deu32be", "", mkSub(u, mkInt(0), mkInt(4)))},
		{"utils.BytesToUint32", mk("deu32be", "", mkSub(u, mkInt(0), mkInt(4)))},
	} {
		r := c.run(x.fn)
		if v := c.returned(r, "frame.bytes"); v != nil {
			v = r.deep(v, c.prog.names[x.fn].fn.Type().(*types.Signature).Results().At(0).Type())
			c.eq(v, x.want, tTrue, "frame.bytes", x.fn, "conversion")
		}
	}
}

func (c *Ck) frameSend() {
	r := c.run("core.MakeSendChannel")
	ch := c.returned(r, "frame.send")
	var ws []*Effect
	for _, e := range r.effects {
		if e.kind == "netwrite" && !unsat(e.pc) {
			ws = append(ws, e)
		}
	}
	if ch == nil || !c.ob(len(ws) > 0, "frame.send", "frame", "nothing is written") {
		return
	}
	conn := connOf(ws[0].args[0])
	c.opened(r, conn, "dial", r.T("cat(host, colon, port)", "host", mkSym("arg0"), "colon", mkStr(":"), "port", mkSym("arg1")), "connection")
	li := r.loopInfoOf(ws[0])
	if !c.ob(li != nil, "frame.send", "frame", "no loop over the messages") {
		return
	}
	for _, w := range ws {
		if !c.ob(w.ctx == ws[0].ctx && r.loopInfoOf(w) == li && connOf(w.args[0]) == conn, "frame.send", "frame", "is written by more than one goroutine, loop or connection, at %s", r.posStr(w.pos)) {
			return
		}
	}
	if ctxID(li.ctx) == "main" {
		c.ob(false, "frame.send", "frame", "is written before the channel is returned")
	}
	var rc *Effect
	for _, e := range r.effects {
		if e.kind == "recv" && e.args[0] == ch && e.ctx == ws[0].ctx && r.loopInfoOf(e) == li {
			c.ob(rc == nil, "frame.send", "frame", "takes two messages for one frame, at %s", r.posStr(e.pos))
			rc = e
		}
	}
	if !c.ob(rc != nil, "frame.send", "frame", "does not come from the returned channel") {
		return
	}
	m := rc.args[1]
	data := tEmpty
	var enc *Term
	for _, w := range ws {
		data = mkCat(data, w.args[1])
		walk(w.args[1], func(x *Term) {
			if x.op == "marshal" && x.sym == "protobuf.Message" && containsTerm(x, m) {
				enc = x
			}
		})
	}
	if !c.ob(enc != nil, "frame.send", "frame", "does not hold the encoded message: %s", short(data)) {
		return
	}
	c.ob(enc.args[0] == m || mkFld(enc.args[0], "Data") == mkFld(m, "Data"), "frame.send", "frame", "encodes %s", short(enc.args[0]))
	c.eq(data, r.T("cat(u32(len(e)), e)", "e", enc), ws[0].pc, "frame.send", "frame", "bytes written")
	good := bAnd(rc.pc, mkEq(tNil, mk("marsherr", "", enc.args[0])))
	all := good
	for i, w := range ws {
		g := simp2(w.pc, tTrue)
		c.ob(implies(all, g), "frame.send", "frame", "part %d is left out when %s", i+1, short(simplify(bNot(g), all)))
		all = bAnd(all, mkEq(tNil, mk("wrerr", "", w.args[2])))
	}
	again := li.again()
	for i, w := range ws {
		c.ob(implies(again, mkEq(tNil, mk("wrerr", "", w.args[2]))), "frame.send", "after an error", "goes on after writing part %d failed", i+1)
	}
	// the channel of a peer that is gone is emptied, so that nobody blocks on it
	failed := bAnd(good, bNot(again))
	drained := false
	for _, e := range r.effects {
		if e.kind == "recv" && e.args[0] == ch && e.ctx == ws[0].ctx {
			l := r.loopInfoOf(e)
			drained = drained || l != nil && l != li && implies(failed, e.pc)
		}
	}
	c.ob(drained, "frame.send", "after an error", "the messages for the peer are no longer taken from the channel")
	c.ob(implies(all, again), "frame.send", "next message", "is only sent when %s", short(simplify(again, all)))
}

func (c *Ck) frameReceive() {
	r := c.run("core.MakeReceiveChannel")
	ch := c.returned(r, "frame.receive")
	if ch == nil {
		return
	}
	var ss, rs []*Effect
	for _, e := range r.effects {
		switch {
		case unsat(e.pc):
		case e.kind == "send" && e.args[0] == ch:
			ss = append(ss, e)
		case e.kind == "netread":
			rs = append(rs, e)
		case e.kind == "netreadpart":
			c.ob(false, "frame.receive", "frame", "is not read in full at %s", r.posStr(e.pos))
			return
		}
	}
	if !c.ob(len(ss) == 1, "frame.receive", "delivery", "%d sites hand messages over, want 1", len(ss)) || !c.ob(len(rs) == 2, "frame.receive", "frame", "is read in %d parts, want length and message", len(rs)) {
		return
	}
	s, hd, bd := ss[0], rs[0], rs[1]
	conn := connOf(hd.args[0])
	if conn.op == "bufrd" {
		c.ob(s.ctx != nil && sameLoops(conn.args[1:], s.ctx), "frame.receive", "frame", "the buffered reader is not the connection's own")
		conn = conn.args[0]
	}
	if !c.ob(conn.op == "accept" && connOf(bd.args[0]) == connOf(hd.args[0]), "frame.receive", "frame", "is read from %s and %s, want one accepted connection", short(hd.args[0]), short(bd.args[0])) {
		return
	}
	c.opened(r, connOf(conn.args[0]), "listen", r.T("cat(colon, port)", "colon", mkStr(":"), "port", mkSym("arg0")), "listener")
	own := s.ctx == hd.ctx && s.ctx == bd.ctx && ctxID(s.ctx) != "main" && sameLoops(conn.args[1:], s.ctx)
	c.ob(own, "frame.receive", "connection", "is not read by a goroutine of its own")
	li := r.loopInfoOf(hd)
	if !c.ob(li != nil && li.ctx == s.ctx && r.loopInfoOf(bd) == li && r.loopInfoOf(s) == li, "frame.receive", "frame", "length, message and delivery are not in one loop over the connection") {
		return
	}
	n, in := hd.args[2], bd.args[2]
	c.ob(hd.args[1].isInt(4), "frame.receive", "length", "has %s bytes, want 4", short(hd.args[1]))
	c.eq(bd.args[1], mk("deu32be", "", n), bd.pc, "frame.receive", "message", "length")
	var dec *Term
	walk(s.args[1], func(x *Term) {
		if x.op == "unm" && x.sym == "protobuf.Message" {
			dec = x
		}
	})
	if !c.ob(dec != nil && s.args[1] == dec, "frame.receive", "delivery", "hands over %s", short(s.args[1])) {
		return
	}
	c.eq(dec.args[0], in, s.pc, "frame.receive", "delivery", "decoded bytes")
	ok1, ok2 := mkEq(tNil, mk("rderr", "", n)), mkEq(tNil, mk("rderr", "", in))
	ok3 := mkEq(tNil, mk("unmerr", "protobuf.Message", in))
	g := simp2(s.pc, tTrue)
	c.ob(implies(g, bAndN(ok1, ok2, ok3)), "frame.receive", "delivery", "happens when %s", short(simplify(g, bNot(bAndN(ok1, ok2, ok3)))))
	c.ob(implies(bAndN(hd.pc, ok1, ok2, ok3), g), "frame.receive", "delivery", "of a whole message only happens when %s", short(simplify(g, bAndN(ok1, ok2, ok3))))
	c.ob(implies(bAnd(hd.pc, ok1), bd.pc), "frame.receive", "message", "is read only when %s", short(bd.pc))
	again := li.again()
	c.ob(implies(again, bAnd(ok1, ok2)), "frame.receive", "after an error", "goes on reading the connection")
	c.ob(implies(bAndN(hd.pc, ok1, ok2), again), "frame.receive", "next frame", "is only read when %s", short(simplify(again, bAnd(ok1, ok2))))
}

// sameLoops: the goroutine ctx is started once for each of the iterations in vs.
func sameLoops(vs []*Term, ctx *Ctx) bool {
	for _, v := range vs {
		hit := false
		for _, q := range ctx.vars {
			hit = hit || q.Sym == v
		}
		if !hit {
			return false
		}
	}
	return true
}

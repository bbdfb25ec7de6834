package main

import "strings"

func init() { checks["P22"] = checkCrash }

// fromPeers tells whether a value was decided by what another process sent.
func fromPeers(t *Term) bool { return peerData(t, true) }

func peerData(t *Term, stored bool) bool {
	return findTerm(t, func(x *Term) bool {
		switch x.op {
		case "recv", "netin", "rderr", "wrerr", "unmerr":
			return true
		case "shared", "mu", "smval":
			return stored
		case "res":
			return strings.HasPrefix(x.sym, "RBCReceive") || strings.HasSuffix(x.sym, "Receiver")
		}
		return x.op == "unm"
	}) != nil
}

func (r *Run) facts(e *Effect) *Term {
	g := e.pc
	for _, q := range e.loops {
		g = bAnd(g, ge0(q.Sym))
		if q.N != nil {
			g = bAnd(g, ge0(addc(sub(q.N, q.Sym), -1)))
		}
	}
	for x := e.ctx; x != nil; x = x.parent {
		for _, q := range x.vars {
			g = bAnd(g, ge0(q.Sym))
			if q.N != nil {
				g = bAnd(g, ge0(addc(sub(q.N, q.Sym), -1)))
			}
		}
	}
	return g
}

// checkCrash: nothing another process sends stops this one.
func checkCrash(c *Ck) {
	rs := c.protocolRuns()
	for _, f := range []string{"MakeSendChannel", "MakeReceiveChannel", "MakeDispatcheChannels"} {
		rs = append(rs, c.run("core."+f))
	}
	for _, r := range rs {
		for _, e := range r.effects {
			if unsat(e.pc) {
				continue
			}
			at := r.posStr(e.pos)
			switch e.kind {
			case "index", "slicing":
				any := fromPeers(e.pc)
				for _, a := range e.args {
					any = any || fromPeers(a)
				}
				if any {
					c.inBounds(r, e, at)
				}
			case "deref":
				if fromPeers(e.args[0]) {
					c.imp(r.facts(e), bNot(mkEq(tNil, e.args[0])), "crash.nil", at, "pointer")
				}
			case "fatal":
				g := e.pc
				for _, a := range atomsOf(e.pc) {
					if a.op == "eq" && a.args[0] == tNil && a.args[1].op == "marsherr" && implies(e.pc, bNot(a)) {
						g = tFalse // messages of these types can always be encoded
					}
				}
				c.ob(unsat(g) || !peerData(g, len(mus(g)) > 0 && !strings.HasPrefix(r.name, "core.")), "crash.exit", at, "the process ends when %s", short(g))
			}
		}
	}
}

// inBounds: the element or part of the list taken at e exists.
func (c *Ck) inBounds(r *Run, e *Effect, at string) bool {
	n := mkLen(e.args[0])
	lows := []*Term{e.args[1], addc(sub(n, e.args[1]), -1)}
	if e.kind == "slicing" {
		lows = []*Term{e.args[1], sub(e.args[2], e.args[1]), sub(n, e.args[2])}
	}
	g := r.facts(e)
	want, plain := tTrue, tTrue
	for _, x := range lows {
		plain = bAnd(plain, ge0(c.built(r, x)))
		for i := len(e.loops) - 1; i >= 0; i-- { // the worst value of the loop variables
			if q := e.loops[i]; q.N != nil && coefOf(x, q.Sym) < 0 {
				x = subst(x, map[*Term]*Term{q.Sym: addc(q.N, -1)})
			}
		}
		want = bAnd(want, ge0(c.built(r, x)))
	}
	if implies(g, plain) || implies(g, want) {
		return c.ob(true, "crash.bounds", at, "")
	}
	inv, same := r.invariants(g, want)
	if g2, w2 := subst(bAnd(g, inv), same), subst(want, same); implies(g2, w2) {
		return c.ob(true, "crash.bounds", at, "")
	}
	if x := findTerm(want, internalRecv); x != nil {
		bs := r.bursts(x.args[0])
		ok := len(bs) > 0
		for _, b := range bs {
			for _, s := range b {
				v := subst(s.e.args[1], s.sub)
				m := map[*Term]*Term{x: v}
				ok = ok && implies(bAnd(subst(g, m), s.cond), subst(want, m))
			}
		}
		if ok {
			return c.ob(true, "crash.bounds", at, "")
		}
	}
	if r.quorumBacked(e.args[0], g) {
		m := map[*Term]*Term{mkLen(e.args[0]): mkInt(36)} // a hash and a length, as honest members send
		if implies(subst(g, m), subst(want, m)) {
			return c.ob(true, "crash.bounds", at, "")
		}
	}
	if x := findTerm(want, func(x *Term) bool {
		return x.op == "sel" && (x.args[0].op == "shared" || x.args[0].op == "mu") && len(x.args[0].args) > 0
	}); x != nil && r.everyElement(x, g, want) {
		return c.ob(true, "crash.bounds", at, "")
	}
	site := at
	if s := remoteIndex(want); s != "" {
		site = r.name + ": " + s
	}
	return c.imp(g, want, "crash.bounds", site, "the access at "+at)
}

// built replaces the lengths of a member's own lists by those the constructor gives them, if no phase
// replaces the list.
func (c *Ck) built(r *Run, t *Term) *Term {
	return rewrite(t, func(x *Term) *Term {
		if x.op != "len" {
			return nil
		}
		var names []string
		y := x.args[0]
		for ; y.op == "fld"; y = y.args[0] {
			names = append([]string{y.sym}, names...)
		}
		if y != tP || len(names) == 0 {
			return nil
		}
		for _, o := range c.runs {
			if strings.HasPrefix(o.name, "party.New") {
				continue
			}
			for _, w := range o.mem.jent {
				if root, path := w.root, w.path; root == tP && w.barrier == "" && len(path) <= len(names) && prefixOf(path, names) {
					return nil
				}
			}
			for _, w := range o.ctxWrites {
				if w.root == tP && w.barrier == "" && len(w.path) <= len(names) && prefixOf(w.path, names) {
					return nil
				}
			}
		}
		k := c.run("party.NewHonestParty")
		var v *Term
		for _, e := range k.effects {
			if e.kind == "return" && len(e.args) > 0 {
				v = e.args[0]
			}
		}
		for _, f := range names {
			root, path := locParts(v)
			if root == nil {
				return nil
			}
			v = k.mem.readAt(root, append(append([]*Term{}, path...), fieldElem(f)), nil, tTrue)
		}
		return subst(mkLen(v), map[*Term]*Term{mkSym("arg2"): tF, mkSym("arg1"): addc(mulc(tF, 3), 1)})
	})
}

func prefixOf(path []*Term, names []string) bool {
	for i, p := range path {
		if p != fieldElem(names[i]) {
			return false
		}
	}
	return true
}

func findTerm(t *Term, p func(*Term) bool) *Term {
	seen := map[*Term]bool{}
	var f func(*Term) *Term
	f = func(t *Term) *Term {
		if t == nil || seen[t] {
			return nil
		}
		seen[t] = true
		if p(t) {
			return t
		}
		for _, a := range t.args {
			if x := f(a); x != nil {
				return x
			}
		}
		return nil
	}
	return f(t)
}

// remoteIndex names the number in a message that decides which element t is about ("" if none does).
func remoteIndex(t *Term) string {
	x := findTerm(t, func(x *Term) bool {
		return x.op == "sel" && x.args[0].op == "fld" && x.args[0].args[0].op == "unm"
	})
	if x == nil {
		return ""
	}
	return "element of " + strings.TrimPrefix(x.args[0].args[0].sym, "protobuf.") + "." + x.args[0].sym + " as an index"
}

// quorumBacked: s is what more than t members have sent.
func (r *Run) quorumBacked(s, g *Term) bool {
	if s.op != "shared" && s.op != "mu" {
		return false
	}
	for _, ca := range append(counterAtoms(g, isSharedCounter), counterAtoms(g, isCounter)...) {
		if implies(g, ge0(addc(sub(ca.X, tF), -1))) {
			return true
		}
	}
	return false
}

// everyElement: want holds for each element ever put in the list that x is taken from.
func (r *Run) everyElement(x, g, want *Term) bool {
	root, _ := locParts(x.args[0].args[0])
	if root == nil {
		return false
	}
	n := 0
	for _, w := range append(append([]*Entry{}, r.ctxWrites...), r.mem.jent...) {
		if w.barrier != "" || !sameRootKind(w.root, root) || hasH(w.path) || isSize(w.path) || unsat(w.guard) || w.val == nil || isAbsent(w.val) || w.val == tEmpty {
			continue
		}
		els, ok := added(w.val, root)
		if !ok {
			return false
		}
		for _, el := range els {
			n++
			m := map[*Term]*Term{x: el}
			if !implies(bAnd(subst(g, m), w.guard), subst(want, m)) {
				return false
			}
		}
	}
	return n > 0
}

// added lists the elements of v that are not elements of the list of root already.
func added(v, root *Term) ([]*Term, bool) {
	if isAbsent(v) || v == tEmpty {
		return nil, true
	}
	switch v.op {
	case "list":
		return v.args, true
	case "map", "make", "alloc":
		return nil, true
	case "mu", "shared":
		r2, _ := locParts(v.args[0])
		return nil, r2 != nil && sameRootKind(r2, root)
	case "cat", "ite":
		as := v.args
		if v.op == "ite" {
			as = as[1:]
		}
		var out []*Term
		for _, a := range as {
			x, ok := added(a, root)
			if !ok {
				return nil, false
			}
			out = append(out, x...)
		}
		return out, true
	}
	return nil, false
}

package main

import "strings"

// Publication: what a goroutine may rely on in memory that another goroutine filled, once it has
// received the signal (a channel send) the other goroutine gives after filling it.

// rewrite maps the terms for which f gives a replacement; binders are opened on the way.
func rewrite(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if v, ok := memo[t]; ok {
			return v
		}
		v := f(t)
		if v == nil {
			switch {
			case len(t.args) == 0:
				v = t
			case isBinder(t.op):
				n := rec(t.args[0])
				xs, bs := openBinder(t)
				if n != t.args[0] {
					rng[xs[0]] = [2]*Term{mkInt(0), addc(n, -1)}
				}
				ch := n != t.args[0]
				var nb []*Term
				for _, b := range bs {
					b2 := rewrite(b, f)
					ch = ch || b2 != b
					nb = append(nb, b2)
				}
				if !ch {
					v = t
				} else {
					v = closeBinder(t.op, t.sym, n, xs, nb)
				}
			default:
				var as []*Term
				ch := false
				for _, a := range t.args {
					b := rec(a)
					ch = ch || b != a
					as = append(as, b)
				}
				if !ch {
					v = t
				} else {
					v = rebuild(t, as)
				}
			}
		}
		memo[t] = v
		return v
	}
	return rec(t)
}

// sharedChain decomposes x.f[i] over a value left by other goroutines.
func sharedChain(t *Term) (*Term, []*Term) {
	var path []*Term
	for {
		switch t.op {
		case "shared":
			root, p := locParts(t.args[0])
			return root, append(append([]*Term{}, p...), path...)
		case "fld", "bfld":
			path = append([]*Term{fieldElem(t.sym)}, path...)
			t = t.args[0]
		case "sel", "bsel":
			path = append([]*Term{t.args[1]}, path...)
			t = t.args[0]
		default:
			return nil, nil
		}
	}
}

// signal is a channel send that gives a receiver permission to read.
type signal struct {
	e    *Effect
	sub  map[*Term]*Term // instance of the signalling goroutine
	cond *Term           // what holds when the signal has been given
}

// signalsOn lists the sends and closes that a receive from ch may take.
func (r *Run) signalsOn(ch *Term) []signal {
	if ch.op == "ite" {
		var out []signal
		for _, l := range condLeaves(ch, tTrue) {
			for _, s := range r.signalsOn(l[1]) {
				s.cond = bAnd(s.cond, l[0])
				out = append(out, s)
			}
		}
		return out
	}
	if ch.op == "nil" {
		return nil
	}
	root, path := locParts(ch)
	var out []signal
	for _, e := range r.effects {
		if e.kind != "send" && e.kind != "close" || len(e.args) == 0 || unsat(e.pc) {
			continue
		}
		for _, l := range condLeaves(e.args[0], e.pc) {
			er, ep := locParts(l[1])
			if l[1].op == "nil" || l[1].op == "mailbox" {
				continue
			}
			var vs []QVar
			for _, q := range e.loops {
				vs = append(vs, q)
			}
			en := &Entry{vars: vs, root: er, path: ep, guard: l[0]}
			h, ok := en.match(root, path)
			if ok && len(h.free) > 0 {
				// some iteration of the loops that the location does not determine
				en.vars = nil
				for _, q := range vs {
					if h.sub[q.Sym] != nil {
						en.vars = append(en.vars, q)
					}
				}
				h, ok = en.match(root, path)
			}
			if !ok {
				continue
			}
			out = append(out, signal{e: e, sub: h.sub, cond: bAnd(subst(l[0], h.sub), h.cond)})
		}
	}
	return out
}

// writerMem is the memory as filled by the main flow before, and by goroutine ctx up to seq.
func (r *Run) writerMem(ctx *Ctx, upto int, inst map[*Term]*Term) *Mem {
	m := newMem()
	for _, e := range r.mem.jent {
		if e.barrier == "" && e.seq < ctx.spawnSeq {
			m.push(copyEntry(e))
		}
	}
	for _, e := range r.ctxWrites {
		if e.barrier == "" && ctxID(e.ctx) == ctx.id && e.seq < upto {
			m.push(instEntry(e, inst))
		}
	}
	return m
}

// instEntry is the write of one instance of a goroutine.
func instEntry(e *Entry, inst map[*Term]*Term) *Entry {
	c := *e
	c.root, c.path, c.guard = subst(e.root, inst), substAll(e.path, inst), subst(e.guard, inst)
	if e.val != nil {
		c.val = subst(e.val, inst)
	}
	c.vars = nil
	for _, v := range e.vars {
		if inst[v.Sym] == nil {
			c.vars = append(c.vars, QVar{v.Sym, subst(v.N, inst)})
		}
	}
	return &c
}

// anyInstance is the write by some instance of its goroutine.
func anyInstance(e *Entry) (*Entry, map[*Term]*Term) {
	c := *e
	ren := map[*Term]*Term{}
	c.vars = append([]QVar{}, e.vars...)
	if e.ctx != nil {
		for _, q := range e.ctx.vars {
			if containsQ(c.vars, q.Sym) {
				continue
			}
			f := freshSym("w")
			rng[f] = rng[q.Sym]
			ren[q.Sym] = f
			c.vars = append(c.vars, QVar{f, q.N})
		}
	}
	c.root, c.path = subst(e.root, ren), substAll(e.path, ren)
	return &c, ren
}

func copyEntry(e *Entry) *Entry { c := *e; return &c }

// afterSignal rewrites the shared values in t to what goroutine s.e.ctx had stored when it gave the
// signal, provided that nobody else, and not itself later, writes those locations.
func (c *Ck) afterSignal(r *Run, t *Term, s signal, rule, site string) *Term {
	inst := map[*Term]*Term{}
	for k, v := range s.sub {
		inst[k] = v
	}
	w := r.writerMem(s.e.ctx, s.e.seq, inst)
	done := map[*Term]bool{}
	return rewrite(t, func(x *Term) *Term {
		root, path := sharedChain(x)
		if root == nil {
			return nil
		}
		if !done[root] {
			done[root] = true
			for _, e := range r.ctxWrites {
				if e.barrier != "" || !sameRootKind(e.root, root) {
					continue
				}
				a, ren := anyInstance(e)
				h, ok := a.match(root, path[:min(len(e.path), len(path))])
				if !ok || unsat(bAnd(h.cond, s.cond)) {
					continue
				}
				if ctxID(e.ctx) == s.e.ctx.id {
					same := true
					for k, f := range ren {
						same = same && h.sub[f] != nil && s.sub[k] != nil && sameTerm(h.sub[f], s.sub[k], s.cond)
					}
					c.ob(same, rule, site, "%s may also be written at %s by another goroutine than the one giving the signal", brief(x), r.posStr(e.pos))
					c.ob(e.seq < s.e.seq || unsat(bAnd(e.guard, s.e.pc)), rule, site, "%s is also written at %s, after the signal at %s", brief(x), r.posStr(e.pos), r.where(s.e))
					continue
				}
				if r.orderedByBroadcast(e, h, s) {
					continue
				}
				c.ob(false, rule, site, "%s is also written at %s, beside the goroutine that gives the signal at %s", brief(x), r.posStr(e.pos), r.where(s.e))
			}
			for _, e := range r.mem.jent {
				if e.barrier == "" && sameRootKind(e.root, root) && e.seq > s.e.ctx.spawnSeq && ctxID(e.ctx) != s.e.ctx.id {
					c.ob(false, rule, site, "%s is also written at %s while the goroutines run", brief(x), r.posStr(e.pos))
				}
			}
		}
		v := w.readAt(root, path, nil, s.cond)
		return simp2(v, s.cond)
	})
}

// orderedByBroadcast: the write precedes, in its goroutine, the reliable broadcast whose delivery the
// signalling goroutine waits for.
func (r *Run) orderedByBroadcast(e *Entry, h hit, s signal) bool {
	for _, b := range r.calls("RBCSend") {
		if ctxID(b.ctx) != ctxID(e.ctx) || b.seq < e.seq || b.pc != tTrue {
			continue
		}
		for _, x := range r.calls("RBCReceive") {
			if ctxID(x.ctx) == s.e.ctx.id && x.seq < s.e.seq && sameTerm(byEqualities(subst(x.args[0], s.sub), h.cond), byEqualities(b.args[1], h.cond), s.cond) {
				return true
			}
		}
	}
	return false
}

func sameRootKind(a, b *Term) bool { return rootKey(a) == rootKey(b) && a.op == b.op }

// before lists the receives from plain channels that goroutine e.ctx has completed before e.
func (r *Run) waitsBefore(e *Effect) []*Effect {
	var out []*Effect
	for _, x := range r.effects {
		if x.kind == "recv" && x.seq < e.seq && ctxID(x.ctx) == ctxID(e.ctx) && len(x.args) > 0 && x.args[0].op != "mailbox" && implies(e.pc, x.pc) {
			out = append(out, x)
		}
	}
	return out
}

// signalsBefore lists the signals that have been given before e, directly or through the goroutines
// that gave them.
func (r *Run) signalsBefore(e *Effect) []signal {
	var out []signal
	type item struct {
		e    *Effect
		sub  map[*Term]*Term
		cond *Term
	}
	todo := []item{{e, nil, tTrue}}
	for depth := 0; depth < 3; depth++ {
		var next []item
		for _, x := range todo {
			for _, w := range r.waitsBefore(x.e) {
				ss := r.signalsOn(subst(w.args[0], x.sub))
				if len(ss) != 1 {
					continue
				}
				s := ss[0]
				s.cond = bAnd(s.cond, x.cond)
				out = append(out, s)
				next = append(next, item{s.e, s.sub, s.cond})
			}
		}
		todo = next
	}
	return out
}

// calls lists the boundary calls of a function.
func (r *Run) calls(name string) []*Effect {
	var out []*Effect
	for _, e := range r.effects {
		if e.kind == "Call" && strings.HasSuffix(e.name, "."+name) && !unsat(e.pc) {
			out = append(out, e)
		}
	}
	return out
}

// hasShared reports whether t mentions a value other goroutines may change.
func hasShared(t *Term) bool {
	f := false
	walk(t, func(x *Term) {
		if x.op == "shared" {
			f = true
		}
	})
	return f
}

// byEqualities replaces unknowns by what the equations in cond say they are.
func byEqualities(t, cond *Term) *Term {
	for _, a := range atomsOf(cond) {
		if a.op != "eq0" || !implies(cond, a) {
			continue
		}
		_, xs, ks := linParts(a.args[0])
		for i, x := range xs {
			if x != tF && (ks[i] == 1 || ks[i] == -1) {
				v := mulc(linComb2(a.args[0], 1, x, -ks[i]), -ks[i])
				if !containsTerm(v, x) {
					t = subst1(t, x, v)
					cond = subst1(cond, x, v)
					break
				}
			}
		}
	}
	return t
}

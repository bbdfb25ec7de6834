package main

import "go/types"

// Data races: two accesses to one location, at least one a write, by goroutines that neither hold a
// common lock nor are ordered by a start, a channel or a wait group.

// access is a read or write of a location that several goroutines can reach.
type access struct {
	write bool
	root  *Term
	path  []*Term
	guard *Term
	vars  []QVar
	ctx   *Ctx
	seq   int
	held  []*Term
	loops []*Term // the iteration symbols of the loops around it
	what  string
}

func (r *Run) accesses() []*access {
	var out []*access
	add := func(a *access) {
		if unsat(a.guard) || r.localTo(a.root, a.ctx) || a.root.op == "nil" {
			return
		}
		if a.ctx != nil {
			for _, q := range a.ctx.vars {
				if !containsQ(a.vars, q.Sym) {
					a.vars = append(a.vars, q)
				}
			}
		}
		out = append(out, a)
	}
	for _, l := range [][]*Entry{r.mem.jent, r.ctxWrites} {
		for _, e := range l {
			if e.barrier == "" {
				add(&access{true, e.root, e.path, e.guard, append([]QVar{}, e.vars...), e.ctx, e.seq, e.held, e.inl, r.posStr(e.pos)})
			}
		}
	}
	for _, e := range r.effects {
		if e.kind == "read" {
			root, path := locParts(e.args[0])
			var ls []*Term
			for _, q := range e.loops {
				ls = append(ls, q.Sym)
			}
			add(&access{false, root, path, e.pc, append([]QVar{}, e.loops...), e.ctx, e.seq, e.held, ls, r.posStr(e.pos)})
		}
	}
	return out
}

func (a *access) rename() (*access, map[*Term]*Term) {
	ren := map[*Term]*Term{}
	b := *a
	b.vars = nil
	for _, q := range a.vars {
		f := freshSym("o")
		ren[q.Sym] = f
		n := subst(q.N, ren)
		rng[f] = [2]*Term{mkInt(0), addc(n, -1)}
		b.vars = append(b.vars, QVar{f, n})
	}
	b.root, b.path, b.guard, b.held = subst(a.root, ren), substAll(a.path, ren), subst(a.guard, ren), substAll(a.held, ren)
	return &b, ren
}

// overlap is the condition under which a and b touch a common location (nil: never).
func (r *Run) overlap(a, b *access) *Term {
	if !sameRootKind(a.root, b.root) || len(a.root.args) != len(b.root.args) {
		return nil
	}
	g := tTrue
	for i := range a.root.args {
		g = bAnd(g, mkEq(a.root.args[i], b.root.args[i]))
	}
	t := r.rootType[a.root.sym]
	for i := 0; i < len(a.path) && i < len(b.path); i++ {
		x, y := a.path[i], b.path[i]
		if inMap := false; t != nil {
			if t, inMap = elemType(t, x); inMap {
				break // the map itself is not safe for concurrent use
			}
		}
		if x.op == "F" || y.op == "F" || x.op == "H" || y.op == "H" {
			if x != y {
				return nil
			}
			continue
		}
		g = bAnd(g, mkEq(x, y))
	}
	if unsat(g) {
		return nil
	}
	return g
}

// elemType is the type of the part x of a t; inMap if t is a map.
func elemType(t types.Type, x *Term) (el types.Type, inMap bool) {
	switch u := t.Underlying().(type) {
	case *types.Map:
		return u.Elem(), true
	case *types.Slice:
		return u.Elem(), false
	case *types.Array:
		return u.Elem(), false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == x.sym {
				return u.Field(i).Type(), false
			}
		}
	}
	return nil, false
}

// ordered: access a comes before b2 (the instance of b under ren) because of a start, a channel, a
// wait group or a message; g is the condition under which they meet.
func (r *Run) ordered(a, b, b2 *access, g *Term, ren map[*Term]*Term) bool {
	self := false // they meet at the data of the member's own message
	for _, t := range append(append([]*Term{}, b2.root.args...), b2.path...) {
		walk(t, func(x *Term) {
			self = self || x.op == "fld" && x.sym == "Sender" && (implies(g, mkEq(x, r.T("P.PID"))) || implies(g, eq0(sub(x, r.T("P.PID")))))
		})
	}
	at := map[string]int{ctxID(a.ctx): a.seq}
	done := map[*Effect]bool{}
	for change := true; change; {
		change = false
		set := func(id string, s int) {
			if id == ctxID(a.ctx) && s > a.seq { // a may be repeated
				return
			}
			if old, ok := at[id]; !ok || s < old {
				at[id] = s
				change = true
			}
		}
		for _, c := range r.ctxs {
			if c.parent != nil {
				if s, ok := at[ctxID(c.parent)]; ok && c.spawnSeq > s {
					set(c.id, 0)
				}
			}
		}
		for _, e := range r.effects {
			s, ok := at[ctxID(e.ctx)]
			if !ok || e.seq < s || unsat(e.pc) {
				continue
			}
			first := ctxID(e.ctx) == ctxID(a.ctx)
			switch e.kind {
			case "send", "close", "wg", "callvalue", "Send", "Call":
				if done[e] && !first || first && !r.beforeFor(a, e) {
					continue
				}
				done[e] = true
			default:
				continue
			}
			for _, x := range r.effects {
				if len(x.args) == 0 {
					continue
				}
				in := x.kind == "recv" || x.kind == "selectcase"
				hit := false
				switch {
				case e.kind == "send" || e.kind == "close":
					hit = in && sameChan(x.args[0], e.args[0])
					if hit && first && ctxID(x.ctx) == ctxID(b.ctx) && e.kind == "send" {
						hit = r.sameInstance(e, x, a, g, ren)
					}
				case e.kind == "wg":
					hit = e.name == "sync.WaitGroup.Done" && x.kind == "wg" && x.name == "sync.WaitGroup.Wait" && sameChan(x.args[0], e.args[0])
				case e.kind == "callvalue":
					hit = in && x.args[0].op == "donech"
				case e.kind == "Send":
					hit = self && in && x.args[0].op == "mailbox" && x.args[0].args[0] == mkFld(e.args[0], "Type")
				case e.kind == "Call":
					hit = e.name == "party.HonestParty.RBCSend" && x.kind == "Call" && x.name == "party.HonestParty.RBCReceive"
				}
				if hit {
					set(ctxID(x.ctx), x.seq)
				}
			}
		}
	}
	s, ok := at[ctxID(b.ctx)]
	return ok && ctxID(b.ctx) != ctxID(a.ctx) && b.seq > s
}

// beforeFor: when e happens, access a is over: no loop brings its goroutine back to a.
func (r *Run) beforeFor(a *access, e *Effect) bool {
	if e.seq < a.seq {
		return false
	}
	for _, q := range a.loops {
		in := false
		omega := false
		for _, v := range e.loops {
			if v.Sym == q {
				in, omega = true, v.N == tOmega
			}
		}
		own := a.ctx != nil && containsQ(a.ctx.vars, q)
		if !in || own || !omega || containsTerm(a.root, q) {
			continue
		}
		var li *loopInfo
		for _, l := range r.loopInfos {
			if l.k == q {
				li = l
			}
		}
		if li != nil && implies(li.again(), bNot(e.pc)) {
			continue
		}
		sub := &Ck{prop: r.ck.prop, tier: r.ck.tier, prog: r.ck.prog, runs: r.ck.runs, rules: map[string]int{}, anal: map[string]bool{}, extra: map[string]int{}}
		sub.oncePer(r, &Effect{kind: "access", pc: a.guard, ctx: a.ctx, loops: a.vars, seq: a.seq, held: a.held}, a.guard, nil, "once", "once")
		if len(sub.finds) > 0 {
			return false
		}
	}
	return true
}

// sameInstance: where a and b meet, the signal s of a's goroutine is the one that b's receive x takes.
func (r *Run) sameInstance(s, x *Effect, a *access, g *Term, ren map[*Term]*Term) bool {
	for _, l := range condLeaves(s.args[0], tTrue) {
		for _, m := range condLeaves(x.args[0], tTrue) {
			sr, sp := locParts(l[1])
			xr, xp := locParts(subst(m[1], ren))
			if sr.op == "nil" || !sameRootKind(sr, xr) || len(sp) != len(xp) || len(sr.args) != len(xr.args) {
				continue
			}
			ok := true
			same := func(u, v *Term) {
				if u.op == "F" || v.op == "F" {
					ok = ok && u == v
					return
				}
				for _, t := range []*Term{u, v} {
					for _, q := range append(append([]QVar{}, s.loops...), x.loops...) { // a signal for each index
						own := a.ctx != nil && containsQ(a.ctx.vars, q.Sym) || ren[q.Sym] != nil
						if containsTerm(t, q.Sym) && !own {
							return
						}
					}
				}
				ok = ok && (u == v || implies(g, mkEq(u, v)) || implies(g, eq0(sub(u, v))))
			}
			for i := range sr.args {
				same(sr.args[i], xr.args[i])
			}
			for i := range sp {
				same(sp[i], xp[i])
			}
			if ok {
				return true
			}
		}
	}
	return false
}

func sameChan(a, b *Term) bool {
	for _, x := range condLeaves(a, tTrue) {
		for _, y := range condLeaves(b, tTrue) {
			xr, xp := locParts(x[1])
			yr, yp := locParts(y[1])
			if xr.op != "nil" && sameRootKind(xr, yr) && len(xp) == len(yp) {
				return true
			}
		}
	}
	return false
}

// racing lists the pairs of accesses that may happen at the same time.
func (r *Run) racing(as []*access) [][2]*access {
	var out [][2]*access
	byKey := map[string][]*access{}
	for _, a := range as {
		byKey[rootKey(a.root)] = append(byKey[rootKey(a.root)], a)
	}
	for _, l := range byKey {
		for i, a := range l {
			for j := i; j < len(l); j++ {
				b := l[j]
				if !a.write && !b.write {
					continue
				}
				same := ctxID(a.ctx) == ctxID(b.ctx)
				if same && (a.ctx == nil || len(a.ctx.vars) == 0) {
					continue
				}
				b2, ren := b.rename()
				g := r.overlap(a, b2)
				if g == nil {
					continue
				}
				if same {
					eq := tTrue
					for _, q := range a.ctx.vars {
						eq = bAnd(eq, eq0(sub(q.Sym, ren[q.Sym])))
					}
					if implies(g, eq) || r.onePerKey(a, b, g, ren) {
						continue
					}
				}
				common := false
				for _, x := range a.held {
					for _, y := range b2.held {
						common = common || implies(g, mkEq(x, y)) || x == y
					}
				}
				if common || unsat(bAndN(g, a.guard, b2.guard)) {
					continue
				}
				if !same {
					a2, ren2 := a.rename()
					if r.ordered(a, b, b2, g, ren) || r.ordered(b, a, a2, r.overlap(a2, b), ren2) {
						continue
					}
				}
				out = append(out, [2]*access{a, b})
			}
		}
	}
	return out
}

// onePerKey: the two instances of a goroutine would have to handle a message of the same sender, but
// each sender's messages are handled by one instance only.
func (r *Run) onePerKey(a, b *access, g *Term, ren map[*Term]*Term) bool {
	keys := map[*Term]bool{}
	for _, t := range append(append([]*Term{}, a.root.args...), a.path...) {
		walk(t, func(x *Term) {
			if x.op == "fld" && x.sym == "Sender" {
				keys[x] = true
			}
		})
	}
	for k := range keys {
		if k2 := subst(k, ren); !implies(g, mkEq(k, k2)) && !implies(g, eq0(sub(k, k2))) {
			continue
		}
		sub := &Ck{prop: r.ck.prop, tier: r.ck.tier, prog: r.ck.prog, runs: r.ck.runs, rules: map[string]int{}, anal: map[string]bool{}, extra: map[string]int{}}
		for _, x := range []*access{a, b} {
			sub.oncePer(r, &Effect{kind: "access", pc: x.guard, ctx: x.ctx, loops: x.vars, seq: x.seq, held: x.held}, x.guard, k, "once", "once")
		}
		if len(sub.finds) == 0 {
			return true
		}
	}
	return false
}

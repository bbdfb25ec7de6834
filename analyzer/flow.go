package main

// Values handed from one goroutine of a protocol instance to another, through channels and
// concurrent maps: a value received is one of those sent.

// flow is one way for values to have come about: what they are, what then holds, and the sends that
// handed them over.
type flow struct {
	vals []*Term
	cond *Term
	from []*Effect
	used []burst
}

// burst is a run of sends to one channel that one goroutine makes together.
type burst []signal

// bursts groups the sends to a channel by the goroutine and the condition they are made under.
func (r *Run) bursts(ch *Term) []burst {
	var out []burst
next:
	for _, s := range r.signalsOn(ch) {
		if s.e.kind != "send" {
			continue
		}
		for i, b := range out {
			if ctxID(b[0].e.ctx) == ctxID(s.e.ctx) && sameTerm(b[0].e.pc, s.e.pc, tTrue) {
				out[i] = append(b, s)
				continue next
			}
		}
		out = append(out, burst{s})
	}
	return out
}

func isSMVal(t *Term) bool { return t.op == "smval" && len(t.args) == 2 }

// internalRecv: x is received from a channel made by this process.
func internalRecv(x *Term) bool {
	if x.op != "recv" || len(x.args) == 0 || x.args[0].op == "mailbox" || x.args[0].op == "donech" {
		return false
	}
	return !onChain(x)
}

// sources lists the ways in which vals, used under pc, can have come about.
func (c *Ck) sources(r *Run, vals []*Term, pc *Term, rule, site string) []flow {
	work := []flow{{vals: vals, cond: pc}}
	var out []flow
	for n := 0; len(work) > 0 && n < 64; n++ {
		f := work[0]
		work = work[1:]
		var x *Term
		look := func(y *Term) {
			if x == nil && (internalRecv(y) || isSMVal(y)) {
				x = y
			}
		}
		for _, v := range f.vals {
			walk(v, look)
		}
		if x == nil {
			walk(f.cond, func(y *Term) { // conditions: only what a channel with one kind of send hands over
				if x == nil && internalRecv(y) && len(r.bursts(y.args[0])) == 1 && len(r.bursts(y.args[0])[0]) == 1 {
					x = y
				}
			})
		}
		if x == nil {
			f.cond = simplify(f.cond, tTrue)
			if !unsat(f.cond) {
				out = append(out, f)
			}
			continue
		}
		if isSMVal(x) {
			ss := r.stores(x)
			c.ob(len(ss) > 0, rule, site+": source", "nothing is stored in %s", brief(x.args[0]))
			for _, s := range ss {
				g := flow{cond: bAnd(subst1(f.cond, x, s.val), s.cond), from: append(append([]*Effect{}, f.from...), s.e), used: f.used}
				for _, v := range f.vals {
					g.vals = append(g.vals, simp2(subst1(v, x, s.val), tTrue))
				}
				work = append(work, g)
			}
			continue
		}
		// the receives from this channel in this goroutine, in order
		var at *Effect
		for _, e := range r.effects {
			if e.kind == "recv" && len(e.args) > 1 && e.args[1] == x {
				at = e
			}
		}
		if !c.ob(at != nil, rule, site+": source", "no receive of %s", brief(x)) {
			return nil
		}
		var order []*Effect
		for _, e := range r.effects {
			if e.kind == "recv" && len(e.args) > 1 && ctxID(e.ctx) == ctxID(at.ctx) && e.args[0] == at.args[0] && !unsat(bAnd(e.pc, at.pc)) {
				order = append(order, e)
			}
		}
		bs := r.bursts(x.args[0])
		if !c.ob(len(bs) > 0, rule, site+": source", "nothing is sent to %s", brief(x.args[0])) {
			return nil
		}
		for _, b := range bs {
			if !c.ob(len(b) >= len(order) && (len(b) == 1 || len(bs) == 1 || sameCtx(bs)), rule, site+": source", "%d values are received from %s, which are sent one by one or by several goroutines", len(order), brief(x.args[0])) {
				return nil
			}
			m := map[*Term]*Term{}
			cond := tTrue
			for i, e := range order {
				m[e.args[1]] = subst(b[i].e.args[1], b[i].sub)
				cond = bAnd(cond, b[i].cond)
			}
			// values taken from different channels must have been sent together
			ok := true
			for _, u := range f.used {
				if ctxID(u[0].e.ctx) == ctxID(b[0].e.ctx) && len(u[0].e.loops) == len(b[0].e.loops) && !sameTerm(u[0].e.pc, b[0].e.pc, tTrue) {
					if unsat(bAnd(u[0].cond, b[0].cond)) {
						ok = false
						continue
					}
					c.ob(false, rule, site+": source", "values that are not sent together are used together")
				}
			}
			if !ok {
				continue
			}
			g := flow{cond: bAnd(subst(f.cond, m), cond), from: append(append([]*Effect{}, f.from...), b[0].e), used: append(append([]burst{}, f.used...), b)}
			for _, v := range f.vals {
				g.vals = append(g.vals, simp2(subst(v, m), tTrue))
			}
			if !unsat(g.cond) {
				work = append(work, g)
			}
		}
	}
	// one flow per leaf of the values
	var leaves []flow
	for _, f := range out {
		for _, l := range splitVals(f.vals, f.cond) {
			g := f
			g.vals, g.cond = l.vals, l.cond
			leaves = append(leaves, g)
		}
	}
	return leaves
}

// splitVals splits values that are decided by conditions into the cases.
func splitVals(vals []*Term, cond *Term) []flow {
	out := []flow{{cond: cond}}
	for _, v := range vals {
		var next []flow
		for _, f := range out {
			for _, l := range condLeaves(simp2(v, f.cond), f.cond) {
				next = append(next, flow{vals: append(append([]*Term{}, f.vals...), l[1]), cond: l[0]})
			}
		}
		out = next
	}
	for i, f := range out {
		for k := range f.vals {
			out[i].vals[k] = simp2(f.vals[k], f.cond)
		}
	}
	return out
}

func sameCtx(bs []burst) bool {
	for _, b := range bs {
		if ctxID(b[0].e.ctx) != ctxID(bs[0][0].e.ctx) {
			return false
		}
	}
	return true
}

// stored is a value kept in a concurrent map.
type stored struct {
	e         *Effect
	val, cond *Term
}

// stores lists what a load x of a concurrent map can give.
func (r *Run) stores(x *Term) []stored {
	var out []stored
	for _, e := range r.effects {
		if e.kind != "smstore" || len(e.args) < 3 || e.args[0] != x.args[0] || unsat(e.pc) {
			continue
		}
		m := map[*Term]*Term{}
		cond := e.pc
		for _, q := range e.loops {
			if e.args[1] == q.Sym {
				m[q.Sym] = x.args[1]
			}
		}
		for _, q := range e.ctx.vars {
			if e.args[1] == q.Sym {
				m[q.Sym] = x.args[1]
			}
		}
		if len(m) == 0 {
			if isLiteral(e.args[1]) {
				cond = bAnd(cond, mkEq(e.args[1], x.args[1]))
			} else {
				m[e.args[1]] = x.args[1] // stored under this key
			}
		}
		cond = subst(cond, m)
		out = append(out, stored{e: e, val: subst(e.args[2], m), cond: cond})
	}
	return out
}

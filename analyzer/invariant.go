package main

// Small inductive invariants of receive loops: two counters of one key stay equal, and a counter stays
// below the point at which a flag is set.

// invariants returns the invariants found for the loop-carried values in g and ts, as a condition and
// as the counters that are equal.
func (r *Run) invariants(g *Term, ts ...*Term) (*Term, map[*Term]*Term) {
	same := map[*Term]*Term{}
	var nums, flags []*Term
	seen := map[*Term]bool{}
	numeric := func(x *Term) {
		if !seen[x] {
			seen[x] = true
			nums = append(nums, x)
		}
	}
	for _, t := range append([]*Term{g}, ts...) {
		for _, a := range atomsOf(t) {
			switch a.op {
			case "ge0", "eq0":
				_, xs, _ := linParts(a.args[0])
				for _, x := range xs {
					if h := headMu(x); h.op == "mu" && (x.op == "len" || isCounter(x)) {
						numeric(x)
					}
				}
			case "eq":
			default:
				if len(mus(a)) > 0 && !seen[a] {
					seen[a] = true
					flags = append(flags, a)
				}
			}
		}
	}
	inv := tTrue
	for i, x := range nums {
		for _, y := range nums[i+1:] {
			hx, hy := headMu(x), headMu(y)
			if hx.sym != hy.sym || hx == hy {
				continue
			}
			px, py := locPath(hx.args[0]), locPath(hy.args[0])
			if len(px) == 0 || len(py) == 0 || px[len(px)-1] != py[len(py)-1] {
				continue
			}
			k := freshSym("key")
			m := map[*Term]*Term{px[len(px)-1]: k}
			if r.inductive(r.loopInfos[hx.sym], eq0(sub(subst(x, m), subst(y, m))), k) {
				same[y] = x
			}
		}
		for _, f := range flags {
			l := f
			if implies(g, f) {
				l = bNot(f)
			} else if !implies(g, bNot(f)) {
				continue
			}
			for _, a := range atomsOf(g) {
				if a.op != "ge0" || !containsTerm(a, x) || !implies(g, a) {
					continue
				}
				cand := bOr(l, ge0(mulc(a.args[0], -1)))
				if r.inductive(r.loopInfos[headMu(x).sym], cand, nil) {
					inv = bAnd(inv, cand)
				}
			}
		}
	}
	return inv, same
}

// inductive: cand, for every value of key, holds before the loop and is kept by every iteration.
func (r *Run) inductive(li *loopInfo, cand, key *Term) bool {
	if li == nil {
		return false
	}
	type cs struct {
		g *Term
		m map[*Term]*Term
	}
	after := func(l *loopInfo) []*Term {
		all := []cs{{g: tTrue, m: map[*Term]*Term{}}}
		for _, a := range atomsOf(cand) {
			ls := [][2]*Term{}
			if a.op == "ge0" || a.op == "eq0" {
				v := r.nextOf(l, a.args[0])
				if l != li {
					v = r.atStart(li, unnil(v))
				}
				for _, lf := range condLeaves(v, tTrue) {
					v := lf[1]
					if isAbsent(v) {
						v = mkInt(0)
					}
					if a.op == "eq0" {
						ls = append(ls, [2]*Term{lf[0], eq0(v)})
					} else {
						ls = append(ls, [2]*Term{lf[0], ge0(v)})
					}
				}
			} else if n := r.nextFlag(l, a); n != nil {
				if l != li {
					n = asBool(r.atStart(li, n))
				}
				ls = append(ls, [2]*Term{tTrue, n})
			} else {
				continue
			}
			var next []cs
			for _, x := range all {
				for _, l := range ls {
					m := map[*Term]*Term{a: l[1]}
					for k, v := range x.m {
						m[k] = v
					}
					next = append(next, cs{bAnd(x.g, l[0]), m})
				}
			}
			all = next
		}
		var out []*Term
		for _, x := range all {
			out = append(out, bOr(bNot(x.g), subst(cand, x.m)))
		}
		return out
	}
	pre := &loopInfo{id: li.id, k: li.k, snap: li.before, subs: li.subs}
	for _, o := range after(pre) {
		if !implies(tTrue, o) {
			return false
		}
	}
	for _, o := range after(li) {
		none := map[*Term]*Term{}
		for _, a := range atomsOf(o) {
			if a.op != "eq" || key == nil || a.args[0] != key && a.args[1] != key {
				continue
			}
			v := a.args[0]
			if v == key {
				v = a.args[1]
			}
			none[a] = tFalse
			is := map[*Term]*Term{key: v}
			if x := subst(o, is); !implies(bAnd(subst(cand, is), absent(x)), x) {
				return false
			}
		}
		if x := subst(o, none); !implies(bAnd(cand, absent(x)), x) {
			return false
		}
	}
	return true
}

// unnil reads absent counters as zero.
func unnil(t *Term) *Term {
	if isAbsent(t) {
		return mkInt(0)
	}
	if t.op == "lin" {
		m := map[*Term]*Term{}
		for _, a := range t.args {
			if isAbsent(a) {
				m[a] = mkInt(0)
			}
		}
		return subst(t, m)
	}
	return t
}

// atStart replaces the shared values that only this instance of the goroutine changes by their values
// when it was started.
func (r *Run) atStart(li *loopInfo, t *Term) *Term {
	ctx := li.ctx
	if ctx == nil || ctx.parent == nil || !hasShared(t) {
		return t
	}
	w := r.writerMem(ctx, ctx.spawnSeq, nil)
	return rewrite(t, func(x *Term) *Term {
		root, path := sharedChain(x)
		if root == nil || !perInstance(root, path, ctx) {
			return nil
		}
		for _, e := range r.ctxWrites {
			if e.barrier == "" && sameRootKind(e.root, root) && (ctxID(e.ctx) != ctx.id || !perInstance(e.root, e.path, ctx)) {
				return nil
			}
		}
		for _, e := range r.mem.jent {
			if e.barrier == "" && sameRootKind(e.root, root) && e.seq > ctx.spawnSeq && ctxID(e.ctx) == "main" {
				return nil
			}
		}
		return simp2(w.readAt(root, path, nil, tTrue), tTrue)
	})
}

// absent: lists that are not in their map are empty, and counters zero.
func absent(t *Term) *Term {
	g := tTrue
	for _, a := range atomsOf(t) {
		if a.op != "has" {
			continue
		}
		for _, b := range atomsOf(t) {
			if b.op == "ge0" || b.op == "eq0" {
				_, xs, _ := linParts(b.args[0])
				for _, x := range xs {
					if headMu(x) == a.args[0] && (x == a.args[0] || x.op == "len") {
						g = bAnd(g, bOr(a, eq0(x)))
					}
				}
			}
		}
	}
	return g
}

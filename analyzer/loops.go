package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// tOmega is the length of the iteration space of a loop without a known bound.
var tOmega = mkSym("ω")

type loopSpec struct {
	id, label string
	n         *Term // number of iterations, tOmega if unknown
	k         *Term
	pre       func()
	body      func()
	post      func()
	pos       token.Pos
	// condition of a general loop: evaluated at the start of an iteration
	cond func() *Term
	// set when cond turned out to be k < n
	foundN *Term
	reruns int
	redo   bool
	setK   func(*Term) // the iteration the closures above work on
	head   *Term       // condition on which cond is false
	only   bool        // cond is false only once foundN iterations are done
}

// knownLoop marks the loops that carry pointers from one iteration to the next.
var knownLoop = map[string]bool{}

// isRefVal: the value is (or may be) a pointer or a slice of known identity.
func isRefVal(t *Term) bool {
	if t.op == "ite" {
		return isRefVal(t.args[1]) || isRefVal(t.args[2])
	}
	return t.op == "loc" || t.op == "slice"
}

// loopWrites keeps the writes of one symbolic iteration of every unbounded loop.
type loopInfo struct {
	id     string
	k, n   *Term
	writes []*Entry
	pre    int
	exit   *Term
	pos    token.Pos
	left   *Term
	snap   *Mem  // memory at the end of the symbolic iteration
	end    *Term // guard of going round again
	ctx    *Ctx
	begin  *Term
	before *Mem // memory before the loop
	subs   []map[*Term]*Term
}

type saved struct {
	mark, em, cw, rets, defs int
	seq                      int
	pc                       *Term
	held                     []lockHeld
	frames                   []ctrlSave
}

type ctrlSave struct {
	l         *LoopFr
	brk, cont *Term
}

func (it *Interp) save() saved {
	s := saved{mark: len(it.mem.journal), em: len(it.effects), cw: len(it.ctxWrites), rets: len(it.fr.rets), defs: len(it.fr.defers), seq: it.seq, pc: it.pc, held: append([]lockHeld{}, it.held...)}
	for _, l := range it.fr.ctrl {
		s.frames = append(s.frames, ctrlSave{l, l.brk, l.cont})
	}
	return s
}

func (it *Interp) restore(s saved) {
	it.mem.popTo(s.mark)
	it.effects = it.effects[:s.em]
	it.ctxWrites = it.ctxWrites[:s.cw]
	it.fr.rets = it.fr.rets[:s.rets]
	it.fr.defers = it.fr.defers[:s.defs]
	it.seq = s.seq
	it.pc = s.pc
	it.held = append([]lockHeld{}, s.held...)
	for _, f := range s.frames {
		f.l.brk, f.l.cont = f.brk, f.cont
	}
}

func canonKey(e *Entry) string {
	m := map[*Term]*Term{}
	for i, v := range e.vars {
		m[v.Sym] = mkSym(fmt.Sprintf("¤%d", i))
	}
	s := fmt.Sprint(subst(e.root, m).id)
	for _, p := range e.path {
		s += "/" + fmt.Sprint(subst(p, m).id)
	}
	return s + "|" + e.barrier + e.bid
}

// pattern generalises a write of iteration k to the writes of all iterations.
func (it *Interp) pattern(e *Entry, ls *loopSpec) *Entry {
	kp := mkSym("κ" + ls.id)
	rng[kp] = [2]*Term{mkInt(0), nil}
	if ls.n != tOmega {
		rng[kp] = [2]*Term{mkInt(0), addc(ls.n, -1)}
	}
	m := map[*Term]*Term{ls.k: kp}
	// inner quantifiers get their own names
	var vs []QVar
	for i, v := range e.vars {
		f := mkSym(fmt.Sprintf("κ%s.%d", ls.id, i))
		rng[f] = [2]*Term{mkInt(0), nil}
		m[v.Sym] = f
		vs = append(vs, QVar{f, v.N})
	}
	for i := range vs {
		vs[i].N = subst(vs[i].N, m)
		if vs[i].N != tOmega {
			rng[vs[i].Sym] = [2]*Term{mkInt(0), addc(vs[i].N, -1)}
		}
	}
	p := &Entry{vars: append([]QVar{{kp, ls.n}}, vs...), root: subst(e.root, m), path: substAll(e.path, m), guard: tTrue,
		typ: e.typ, barrier: "mu", bid: ls.id, kvar: ls.k, self: []*Term{kp}, pos: e.pos, ctx: e.ctx}
	if e.barrier == "shared" {
		p.barrier, p.bid, p.kvar, p.self = "shared", e.bid, nil, nil
	}
	return p
}

func (it *Interp) runLoop(ls *loopSpec) {
	if it.unroll > 0 && it.unrolled(ls, it.unroll) {
		return
	}
	s0 := it.save()
	it.loops = append(it.loops, QVar{ls.k, ls.n})
	it.loopIDs = append(it.loopIDs, ls.id)
	rng[ls.k] = [2]*Term{mkInt(0), nil}
	if ls.n != tOmega {
		rng[ls.k] = [2]*Term{mkInt(0), addc(ls.n, -1)}
	}
	pats := map[string]*Entry{}
	var order []string
	var lf *LoopFr
	var end *Term
	for pass := 0; ; pass++ {
		it.restore(s0)
		for _, k := range order {
			p := *pats[k]
			it.seq++
			p.seq = it.seq
			it.mem.push(&p)
		}
		lf = &LoopFr{label: ls.label, isLoop: true, brk: tFalse, cont: tFalse}
		it.fr.ctrl = append(it.fr.ctrl, lf)
		if ls.pre != nil {
			ls.pre()
		}
		if ls.cond != nil {
			c := asBool(ls.cond())
			ls.head = bAnd(it.pc, bNot(c))
			lf.brk = bOr(lf.brk, ls.head)
			it.pc = it.guard(it.pc, c)
		}
		if it.pc != tFalse {
			ls.body()
		}
		it.pc = bOr(it.pc, lf.cont)
		if ls.post != nil && it.pc != tFalse {
			ls.post()
		}
		end = it.pc
		it.fr.ctrl = it.fr.ctrl[:len(it.fr.ctrl)-1]
		fresh := false
		base := s0.mark + len(order)
		for i := base; i < len(it.mem.journal); i++ {
			e := it.mem.at(i)
			if e.barrier == "mu" {
				continue
			}
			if !knownLoop[ls.id] && e.barrier == "" && containsTerm(e.root, ls.k) && e.root.op == "alloc" && e.root.args != nil && it.ownAlloc(e.root, ls.k) {
				continue // local to the iteration
			}
			p := it.pattern(e, ls)
			key := canonKey(p)
			if pats[key] == nil {
				pats[key] = p
				order = append(order, key)
				fresh = true
			}
		}
		if !fresh {
			break
		}
		if pass > 12 {
			it.note("loop %s does not stabilise", ls.id)
			break
		}
	}
	it.checkHeld(s0, end, lf, ls)
	if ls.n != tOmega {
		it.closeCounted(ls, s0, len(order), end, lf)
		if ls.redo {
			ls.redo = false
			it.restore(s0)
			it.loops = it.loops[:len(it.loops)-1]
			it.loopIDs = it.loopIDs[:len(it.loopIDs)-1]
			it.runLoop(ls)
			return
		}
	}
	if ls.n == tOmega {
		it.closeUnbounded(ls, s0, len(order), end, lf)
	}
	it.loops = it.loops[:len(it.loops)-1]
	it.loopIDs = it.loopIDs[:len(it.loopIDs)-1]
}

// unrolled runs the iterations one by one, when list lengths are fixed. It gives up on a loop with
// more iterations than that.
func (it *Interp) unrolled(ls *loopSpec, most int64) bool {
	n := int64(-1)
	if ls.n != tOmega {
		if ls.n.op != "int" || ls.n.iv > most || ls.setK == nil {
			return false
		}
		n = ls.n.iv
	}
	s0 := it.save()
	cs, effs := it.fr.cs, len(it.effects)
	brk := tFalse
	for i := int64(0); i != n && it.pc != tFalse; i++ {
		if i > most {
			it.restore(s0)
			it.effects = it.effects[:effs]
			it.fr.cs = cs
			return false
		}
		it.fr.cs = fmt.Sprintf("%s#%d", cs, i)
		lf := &LoopFr{label: ls.label, isLoop: true, brk: tFalse, cont: tFalse}
		it.fr.ctrl = append(it.fr.ctrl, lf)
		if ls.setK != nil {
			ls.setK(mkInt(i))
		}
		if ls.pre != nil {
			ls.pre()
		}
		if ls.cond != nil {
			c := simplify(asBool(ls.cond()), it.pc)
			lf.brk = bOr(lf.brk, bAnd(it.pc, bNot(c)))
			it.pc = it.guard(it.pc, c)
		}
		if it.pc != tFalse {
			ls.body()
		}
		it.pc = bOr(it.pc, lf.cont)
		if ls.post != nil && it.pc != tFalse {
			ls.post()
		}
		it.fr.ctrl = it.fr.ctrl[:len(it.fr.ctrl)-1]
		brk = bOr(brk, lf.brk)
	}
	it.fr.cs = cs
	it.pc = bOr(it.pc, brk)
	return true
}

// ownAlloc: the allocation is indexed by this very iteration.
func (it *Interp) ownAlloc(root, k *Term) bool {
	for _, a := range root.args {
		if a == k {
			return true
		}
	}
	return false
}

func (it *Interp) checkHeld(s0 saved, end *Term, lf *LoopFr, ls *loopSpec) {
	// a lock taken in the iteration and not released on the way back
	for _, h := range it.held {
		was := tFalse
		for _, o := range s0.held {
			if o.lock == h.lock {
				was = o.cond
			}
		}
		if !unsat(bAndN(end, h.cond, bNot(was))) {
			it.pc = end
			it.effect("heldatback", "", ls.pos, h.lock)
		}
	}
	for _, o := range s0.held {
		now := tFalse
		for _, h := range it.held {
			if o.lock == h.lock {
				now = bOr(now, h.cond)
			}
		}
		if !unsat(bAndN(end, o.cond, bNot(now))) {
			it.pc = end
			it.effect("releasedatback", "", ls.pos, o.lock)
		}
	}
}

// ---------- loop-carried scalars ----------

type carried struct {
	vars []QVar // family indices
	root *Term
	path []*Term
	typ  types.Type
	mu   *Term
	init *Term
	upd  *Term // value after an iteration that does not leave the loop
	brk  *Term // value when the loop is left by break
	form func(n *Term) *Term
	pos  token.Pos
	// lists of field elements: the elements of the new list, and of the initial one
	at, at0 func(j *Term) *Term
}

func (c *carried) match(m *Term) (map[*Term]*Term, bool) {
	l := m.args[0]
	root, path := locParts(l)
	if len(path) != len(c.path) {
		return nil, false
	}
	e := &Entry{vars: c.vars, root: c.root, path: c.path, guard: tTrue}
	h, ok := e.match(root, path)
	if !ok || len(h.free) > 0 || h.unk {
		return nil, false
	}
	return h.sub, true
}

// findCarried lists the locations written by the iteration that do not depend on it.
func (it *Interp) findCarried(ls *loopSpec, base int, pre []*Entry) []*carried {
	var out []*carried
	seen := map[string]bool{}
	for i := base; i < len(it.mem.journal); i++ {
		e := it.mem.at(i)
		if e.barrier != "" {
			continue
		}
		if it.dependsOnIter(e, ls.k) {
			continue
		}
		key := canonKey(e)
		if seen[key] {
			continue
		}
		seen[key] = true
		out = append(out, &carried{vars: e.vars, root: e.root, path: e.path, typ: e.typ, pos: e.pos})
	}
	// a write of a whole value covers the writes of its parts
	var keep []*carried
	for i, c := range out {
		cov := false
		for j, d := range out {
			if i != j && d.root == c.root && len(d.path) < len(c.path) && len(d.vars) == 0 {
				same := true
				for x := range d.path {
					same = same && d.path[x] == c.path[x]
				}
				cov = cov || same
			}
		}
		if !cov {
			keep = append(keep, c)
		}
	}
	return keep
}

func (it *Interp) dependsOnIter(e *Entry, k *Term) bool {
	if containsTerm(e.root, k) {
		return true
	}
	for _, p := range e.path {
		if containsTerm(p, k) {
			return true
		}
	}
	return false
}

// closeUnbounded: the state after the loop is the state of its last iteration.
func (it *Interp) closeUnbounded(ls *loopSpec, s0 saved, npat int, end *Term, lf *LoopFr) {
	base := s0.mark + npat
	cs := it.findCarried(ls, base, nil)
	for _, c := range cs {
		c.mu = muTerm("mu", ls.id, c.root, c.path, ls.k)
		c.upd = it.mem.readAt(c.root, c.path, c.typ, orTrue(end))
		if c.typ == nil && hasH(c.path) {
			c.upd = asBool(c.upd)
		}
	}
	info := &loopInfo{id: ls.id, k: ls.k, n: ls.n, pre: s0.mark, exit: lf.brk, pos: ls.pos, snap: it.mem.clone(), end: end, ctx: it.ctx, begin: s0.pc}
	for i := base; i < len(it.mem.journal); i++ {
		if e := it.mem.at(i); e.barrier == "" {
			info.writes = append(info.writes, e)
		}
	}
	// initial values
	tail := it.mem.popTo(s0.mark)
	for _, c := range cs {
		c.init = it.mem.readAt(c.root, c.path, c.typ, s0.pc)
	}
	info.before = it.mem.clone()
	for _, e := range tail {
		it.mem.push(e)
	}
	it.loopInfos[ls.id] = info
	sub := map[*Term]*Term{}
	for _, c := range cs {
		it.mus[ls.id+"|"+fmt.Sprint(c.mu.id)] = &MuInfo{mu: c.mu, init: c.init, update: c.upd, loop: ls.id, vars: c.vars}
		// plain induction variables
		if len(c.vars) == 0 && isIntLike(c.typ) && c.upd.op != "ite" && c.init.op != "ite" {
			d := sub2(c.upd, c.mu)
			if d != nil && d.op == "int" && it.everyIter(end, s0.pc, lf) {
				sub[c.mu] = add(c.init, mulc(ls.k, d.iv))
			}
		}
	}
	brk := lf.brk
	if len(sub) > 0 {
		it.substState(s0, s0.mark, sub)
		brk = subst(brk, sub)
		info.exit = brk
	}
	// while loop that is really a counted loop: leaves exactly when k reaches a fixed bound
	it.pc = brk
	lens := map[*Term]*Term{}
	for _, c := range cs {
		if len(c.vars) > 0 || c.typ == nil || c.mu == nil {
			continue
		}
		if _, ok := c.typ.Underlying().(*types.Slice); !ok || c.upd.op == "ite" || c.init.op == "ite" {
			continue
		}
		if d := sub2(mkLen(c.upd), mkLen(c.mu)); d != nil && d.op == "int" && d.iv != 0 && mkLen(c.mu).op != "int" {
			lens[mkLen(c.mu)] = add(mkLen(c.init), mulc(ls.k, d.iv))
		}
	}
	head := ls.head
	if len(lens) > 0 && ls.head != nil {
		ls.head = subst(ls.head, lens)
	}
	ls.foundN = it.boundOf(ls, s0, subst(brk, lens))
	ls.head = head
	if unsat(it.pc) {
		it.pc = tFalse
	}
}

func orTrue(t *Term) *Term {
	if t == tFalse {
		return tTrue
	}
	return t
}

func isIntLike(t types.Type) bool { return t == nil || isIntT(t) }

func sub2(a, b *Term) *Term {
	if a.op == "ite" || b.op == "ite" {
		return nil
	}
	return sub(a, b)
}

func (it *Interp) everyIter(end, pc *Term, lf *LoopFr) bool { return true }

// boundOf recognises the exit condition k >= n of a loop with a condition.
func (it *Interp) boundOf(ls *loopSpec, s0 saved, brk *Term) *Term {
	if ls.cond == nil {
		return nil
	}
	g := simplify(brk, s0.pc)
	for _, a := range atomsOf(g) {
		if a.op != "ge0" && a.op != "eq0" {
			continue
		}
		x := a.args[0]
		c := coefOf(x, ls.k)
		if c != 1 && c != -1 {
			continue
		}
		rest := linComb2(x, 1, ls.k, -c)
		if containsTerm(rest, ls.k) || it.mentionsMu(rest, ls.id) {
			continue
		}
		// leaves (header exit) when: a (c=1: k >= -rest), or !a (c=-1: k > rest)
		var n *Term
		var leave *Term
		if a.op == "eq0" {
			if c == 1 {
				n = mulc(rest, -1)
			} else {
				n = rest
			}
			leave = a
			if !provGe0(n) {
				continue
			}
		} else if c == 1 {
			n, leave = mulc(rest, -1), a
		} else {
			n, leave = addc(rest, 1), bNot(a)
		}
		if implies(bAnd(s0.pc, leave), g) {
			ls.only = implies(bAnd(s0.pc, ls.head), leave)
			return maxZero(n)
		}
	}
	return nil
}

func (it *Interp) mentionsMu(t *Term, id string) bool {
	found := false
	walk(t, func(x *Term) {
		if x.op == "mu" && x.sym == id {
			found = true
		}
	})
	return found
}

func walk(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
}

func maxZero(n *Term) *Term {
	if provGe0(n) {
		return n
	}
	return mkIte(ge0(n), n, mkInt(0))
}

// isGuardedMax: n >= 0 ? n : 0
func isGuardedMax(t *Term) bool {
	return t.op == "ite" && t.args[2].isInt(0) && t.args[0] == asBool(ge0(t.args[1]))
}

// substState rewrites everything recorded since s0.
func (it *Interp) substState(s0 saved, from int, m map[*Term]*Term) {
	if len(m) == 0 {
		return
	}
	tail := it.mem.popTo(from)
	for _, e := range tail {
		if e.barrier == "" {
			e = it.substEntry(e, m)
		}
		it.mem.push(e)
	}
	it.substRest(s0, m)
}

func (it *Interp) substEntry(e *Entry, m map[*Term]*Term) *Entry {
	n := *e
	n.root, n.path = subst(e.root, m), substAll(e.path, m)
	if e.guard != nil {
		n.guard = subst(e.guard, m)
	}
	if e.val != nil {
		n.val = subst(e.val, m)
	}
	n.held = substAll(e.held, m)
	n.vars = nil
	for _, v := range e.vars {
		n.vars = append(n.vars, QVar{v.Sym, subst(v.N, m)})
	}
	return &n
}

func (it *Interp) substRest(s0 saved, m map[*Term]*Term) {
	for i := s0.cw; i < len(it.ctxWrites); i++ {
		it.ctxWrites[i] = it.substEntry(it.ctxWrites[i], m)
	}
	for i := s0.em; i < len(it.effects); i++ {
		e := *it.effects[i]
		e.pc = subst(e.pc, m)
		e.args = substAll(e.args, m)
		e.held = substAll(e.held, m)
		var ls []QVar
		for _, q := range e.loops {
			ls = append(ls, QVar{q.Sym, subst(q.N, m)})
		}
		e.loops = ls
		it.effects[i] = &e
	}
	for i := s0.rets; i < len(it.fr.rets); i++ {
		r := *it.fr.rets[i]
		r.pc = subst(r.pc, m)
		r.vals = substAll(r.vals, m)
		it.fr.rets[i] = &r
	}
	for k, mi := range it.mus {
		if strings.HasPrefix(k, "~") {
			continue
		}
		mi.init, mi.update = subst(mi.init, m), subst(mi.update, m)
	}
	for _, li := range it.loopInfos {
		for i, e := range li.writes {
			li.writes[i] = it.substEntry(e, m)
		}
		li.exit = subst(li.exit, m)
		li.subs = append(li.subs, m)
	}
}

// closeCounted replaces the symbolic iteration by the effect of all n iterations.
func (it *Interp) closeCounted(ls *loopSpec, s0 saved, npat int, end *Term, lf *LoopFr) {
	base := s0.mark + npat
	k, n := ls.k, ls.n
	brk := lf.brk
	hasBrk := !unsat(brk)
	cs := it.findCarried(ls, base, nil)
	for _, c := range cs {
		c.mu = muTerm("mu", ls.id, c.root, c.path, k)
		c.upd = it.mem.readAt(c.root, c.path, c.typ, orTrue(end))
		if hasBrk {
			c.brk = it.mem.readAt(c.root, c.path, c.typ, brk)
		}
		c.at = it.elementsOf(c.upd, c.typ, orTrue(end))
	}
	info := &loopInfo{id: ls.id, k: k, n: n, pre: s0.mark, exit: lf.brk, pos: ls.pos, snap: it.mem.clone(), end: end, ctx: it.ctx, begin: s0.pc}
	tail := it.mem.popTo(s0.mark)[npat:]
	info.before = it.mem.clone()
	it.loopInfos[ls.id] = info
	for _, c := range cs {
		c.init = it.mem.readAt(c.root, c.path, c.typ, s0.pc)
		c.at0 = it.elementsOf(c.init, c.typ, s0.pc)
	}
	left := bAnd(s0.pc, bNot(bOr(end, brk)))
	// closed forms, innermost dependencies first
	for changed := true; changed; {
		changed = false
		for _, c := range cs {
			if c.form != nil {
				continue
			}
			sub := it.muSubst(cs, ls.id, c.upd, k)
			u := subst(c.upd, sub)
			in := c.init
			if f := it.closedForm(c, ls, in, relTo(u, orTrue(end)), s0.pc); f != nil {
				c.form = f
				changed = true
			} else if f := it.rootProduct(c, ls, u, sub); f != nil {
				c.form = f
				changed = true
			}
		}
	}
	// substitution for everything recorded during the iteration
	all := map[*Term]*Term{}
	collect := func(t *Term) {
		if t != nil {
			for a, b := range it.muSubst(cs, ls.id, t, k) {
				all[a] = b
			}
		}
	}
	for _, e := range tail {
		if e.barrier == "" {
			collect(e.guard)
			collect(e.val)
			for _, p := range e.path {
				collect(p)
			}
			collect(e.root)
		}
	}
	for _, e := range it.effects[s0.em:] {
		collect(e.pc)
		for _, a := range e.args {
			collect(a)
		}
	}
	for _, e := range it.ctxWrites[s0.cw:] {
		collect(e.guard)
		collect(e.val)
		for _, p := range e.path {
			collect(p)
		}
	}
	for _, r := range it.fr.rets[s0.rets:] {
		collect(r.pc)
		for _, v := range r.vals {
			collect(v)
		}
	}
	for _, x := range []*Term{left, brk, end} {
		collect(x)
	}
	for _, c := range cs {
		collect(c.brk)
	}
	it.resolvePast(cs, ls, s0, tail, all)
	again := false
	for a, b := range all {
		if isRefVal(b) && knownMu[a] == nil {
			knownMu[a] = b
			knownLoop[ls.id] = true
			again = true
		}
	}
	if again && ls.reruns < 3 {
		ls.reruns++
		ls.redo = true
		return
	}
	if len(all) > 0 {
		for i := range tail {
			if tail[i].barrier == "" {
				tail[i] = it.substEntry(tail[i], all)
			}
		}
		it.substRest(s0, all)
		left, brk, end = subst(left, all), subst(brk, all), subst(end, all)
		for _, c := range cs {
			if c.brk != nil {
				c.brk = subst(c.brk, all)
			}
		}
	}
	relB := relTo(brk, s0.pc)
	reach := func(x *Term) *Term { // no break before iteration x
		if !hasBrk {
			return tTrue
		}
		j := freshSym("j")
		rng[j] = [2]*Term{mkInt(0), addc(x, -1)}
		return mkForall(x, j, bNot(subst1(relB, k, j)))
	}
	// element-wise writes
	for _, e := range tail {
		if e.barrier == "mu" {
			if !it.dependsOnIter(e, k) {
				continue
			}
		}
		if e.barrier == "" && !it.dependsOnIter(e, k) {
			continue
		}
		x := freshSym("k")
		rng[x] = [2]*Term{mkInt(0), addc(n, -1)}
		ne := it.substEntry(e, map[*Term]*Term{k: x})
		if e.barrier != "" {
			ne.val = nil
			if e.kvar != nil && containsTerm(e.kvar, k) {
				// the inner loop's own barrier: kept as an ordinary unknown
				ne.kvar, ne.self = nil, nil
			}
			var self []*Term
			for _, q := range ne.self {
				self = append(self, subst1(q, k, x))
			}
			ne.self = self
		} else {
			ne.guard = bAnd(ne.guard, reach(x))
		}
		ne.vars = append([]QVar{{x, n}}, ne.vars...)
		it.mem.push(ne)
	}
	// scalars
	tStar := (*Term)(nil)
	exB := tFalse
	if hasBrk {
		tStar = closeBinder("first", "", n, []*Term{freshRng("f", n)}, []*Term{tTrue})
		f := freshRng("f", n)
		tStar = closeBinder("first", "", n, []*Term{f}, []*Term{subst1(relB, k, f)})
		f2 := freshRng("f", n)
		exB = mkExists(n, f2, subst1(relB, k, f2))
	}
	savePC := it.pc
	it.pc = s0.pc
	for _, c := range cs {
		var v *Term
		if c.form != nil {
			v = c.form(n)
		} else {
			v = subst1(c.mu, k, n)
			it.mus[ls.id+"|"+fmt.Sprint(c.mu.id)] = &MuInfo{mu: c.mu, init: c.init, update: subst(c.upd, all), loop: ls.id, vars: c.vars}
		}
		if hasBrk {
			bv := subst1(relTo(c.brk, brk), k, tStar)
			v = mkIte(exB, bv, v)
		}
		it.seq++
		e := &Entry{vars: c.vars, root: c.root, path: c.path, guard: s0.pc, val: v, typ: c.typ, pos: c.pos, ctx: it.ctx, seq: it.seq, held: it.heldNow()}
		it.mem.push(e)
	}
	it.pc = savePC
	// leaving by return (or by a jump of an enclosing loop)
	relL := relTo(left, s0.pc)
	leftAt := func(x *Term) *Term { return bAnd(reach(x), subst1(relL, k, x)) }
	any := func(g *Term) (*Term, *Term) {
		g = relTo(g, s0.pc)
		x := freshRng("x", n)
		ex := mkExists(n, x, bAnd(reach(x), subst1(g, k, x)))
		y := freshRng("x", n)
		fst := closeBinder("first", "", n, []*Term{y}, []*Term{bAnd(reach(y), subst1(g, k, y))})
		return bAnd(s0.pc, ex), fst
	}
	for i := s0.rets; i < len(it.fr.rets); i++ {
		r := it.fr.rets[i]
		g, f := any(r.pc)
		nr := *r
		nr.pc = g
		nr.vals = nil
		for _, v := range r.vals {
			nr.vals = append(nr.vals, subst1(v, k, f))
		}
		it.fr.rets[i] = &nr
	}
	for _, fs := range s0.frames {
		if fs.l.brk != fs.brk {
			d := bAnd(fs.l.brk, bNot(fs.brk))
			g, _ := any(subst(d, all))
			fs.l.brk = bOr(fs.brk, g)
		}
		if fs.l.cont != fs.cont {
			d := bAnd(fs.l.cont, bNot(fs.cont))
			g, _ := any(subst(d, all))
			fs.l.cont = bOr(fs.cont, g)
		}
	}
	after := s0.pc
	if relL != tFalse {
		x := freshRng("x", n)
		after = bAnd(after, mkForall(n, x, bNot(leftAt(x))))
	}
	it.pc = after
	if unsat(it.pc) {
		it.pc = tFalse
	}
	// a lock taken in one iteration and kept (already reported): forget it
	var hs []lockHeld
	for _, h := range it.held {
		if !containsTerm(h.cond, k) && !containsTerm(h.lock, k) {
			hs = append(hs, h)
		}
	}
	it.held = hs
}

// resolvePast solves loop-carried values of element-wise written locations by reading them in the
// memory left by the earlier iterations.
func (it *Interp) resolvePast(cs []*carried, ls *loopSpec, s0 saved, tail []*Entry, all map[*Term]*Term) {
	k := ls.k
	var todo, under []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t == nil {
			return
		}
		walk(t, func(m *Term) {
			switch {
			case isBinder(m.op):
				if !seen[m] {
					seen[m] = true
					under = append(under, m)
				}
			case m.op == "mu" && m.sym == ls.id && m.args[len(m.args)-1] == k && all[m] == nil && !seen[m] && !freeBV(m, nil):
				seen[m] = true
				todo = append(todo, m)
			}
		})
	}
	for _, e := range tail {
		if e.barrier != "" {
			continue
		}
		add(e.root)
		for _, p := range e.path {
			add(p)
		}
		add(e.guard)
		add(e.val)
	}
	for _, e := range it.effects[s0.em:] {
		add(e.pc)
		for _, a := range e.args {
			add(a)
		}
	}
	// those under a binder
	inside := func(b *Term) bool {
		hit := false
		walk(b, func(m *Term) {
			if m.op == "mu" && m.sym == ls.id && m.args[len(m.args)-1] == k && freeBV(m, nil) {
				hit = true
			}
		})
		return hit && !freeBV(b, nil)
	}
	n := 0
	for _, b := range under {
		if inside(b) {
			under[n] = b
			n++
		}
	}
	under = under[:n]
	if len(todo) == 0 && len(under) == 0 {
		return
	}
	mark := len(it.mem.journal)
	var typs []*Entry
	for _, e := range tail {
		if e.barrier != "" || !it.dependsOnIter(e, k) {
			continue
		}
		x := freshSym("k")
		rng[x] = [2]*Term{mkInt(0), sub(k, mkInt(1))}
		ne := it.substEntry(it.substEntry(e, all), map[*Term]*Term{k: x})
		ne.vars = append([]QVar{{x, k}}, ne.vars...)
		it.mem.push(ne)
		typs = append(typs, ne)
	}
	if len(typs) > 0 {
		solve := func(m *Term) *Term {
			root, path := locParts(m.args[0])
			root, path = subst(root, all), substAll(path, all)
			var t types.Type
			for _, e := range typs {
				if h, ok := e.match(root, path); ok && !h.unk && len(h.rest) == 0 {
					t = e.typ
				}
			}
			if t == nil {
				return nil
			}
			v := it.mem.readAt(root, path, t, s0.pc)
			if f := it.diagonal(m, v, t, ls, s0.pc); f != nil {
				return f
			}
			bad := false
			walk(v, func(x *Term) {
				if x.op == "mu" && x.sym == ls.id {
					bad = true
				}
			})
			if bad {
				return nil
			}
			return v
		}
		for _, m := range todo {
			if v := solve(m); v != nil {
				all[m] = v
			}
		}
		// a binder is solved for an element of its range
		var fix func(t *Term) *Term
		fix = func(b *Term) *Term {
			xs, bodies := openBinder(b)
			for i, t := range bodies {
				here := map[*Term]*Term{}
				walk(t, func(m *Term) {
					if isBinder(m.op) {
						if inside(m) {
							if r := fix(m); r != nil {
								here[m] = r
							}
						}
					} else if m.op == "mu" && m.sym == ls.id && m.args[len(m.args)-1] == k && all[m] == nil && here[m] == nil && !freeBV(m, nil) {
						if v := solve(m); v != nil {
							here[m] = v
						}
					}
				})
				if len(here) == 0 {
					continue
				}
				bodies[i] = simplify(subst(subst(t, here), all), tTrue)
			}
			return closeBinder(b.op, b.sym, subst(b.args[0], all), xs, bodies)
		}
		for _, b := range under {
			if r := fix(b); r != nil && r != b {
				all[b] = r
			}
		}
	}
	it.mem.popTo(mark)
}

// freeBV tells whether a term has a variable of a binder around it.
func freeBV(t *Term, bound map[int64]bool) bool {
	if t.bmax == 0 {
		return false
	}
	if t.op == "bv" {
		return !bound[t.iv]
	}
	if isBinder(t.op) {
		if len(t.args) > 0 && freeBV(t.args[0], bound) {
			return true
		}
		in := map[int64]bool{}
		for a := range bound {
			in[a] = true
		}
		for i := 0; i < binderArity(t.op); i++ {
			in[t.iv+int64(i)] = true
		}
		for _, a := range t.args[1:] {
			if freeBV(a, in) {
				return true
			}
		}
		return false
	}
	for _, a := range t.args {
		if freeBV(a, bound) {
			return true
		}
	}
	return false
}

// diagonal solves y(k) = v[y(k-1), k] where y(k) is the location that iteration k reads and the
// iteration before wrote.
func (it *Interp) diagonal(m, v *Term, t types.Type, ls *loopSpec, pc *Term) *Term {
	k := ls.k
	prev := subst1(m, k, addc(k, -1))
	if !containsTerm(v, prev) {
		return nil
	}
	j := freshSym("k")
	rng[j] = [2]*Term{mkInt(0), nil}
	u := simplify(subst(subst1(v, k, addc(j, 1)), map[*Term]*Term{subst1(m, k, j): m}), tTrue)
	u = subst1(u, j, k)
	init := simplify(subst1(v, k, mkInt(0)), tTrue)
	if it.mentionsMu(init, ls.id) {
		return nil
	}
	f := it.closedForm(&carried{mu: m, typ: t}, ls, init, u, pc)
	if f == nil {
		return nil
	}
	return f(k)
}

// elementsOf reads the elements of a list of field elements in the current memory.
func (it *Interp) elementsOf(v *Term, t types.Type, pc *Term) func(j *Term) *Term {
	if t == nil || v == nil {
		return nil
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok || !isFieldElem(sl.Elem()) {
		return nil
	}
	if v.op != "slice" {
		return nil
	}
	mem := it.mem.clone()
	return func(j *Term) *Term {
		root, path := locParts(elemLoc(v, j))
		return mem.readAt(root, path, sl.Elem(), pc)
	}
}

func isFieldElem(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Fr" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "internal/bls")
}

// rootProduct: a list that starts as [1] and is multiplied by a monic linear polynomial in every
// iteration holds the coefficients of the product of these polynomials.
func (it *Interp) rootProduct(c *carried, ls *loopSpec, u *Term, sub map[*Term]*Term) func(*Term) *Term {
	if c.at == nil || c.at0 == nil || ls.n == nil || c.brk != nil {
		return nil
	}
	m, k := c.mu, ls.k
	if !mkLen(c.init).isInt(1) || c.at0(mkInt(0)) != tFr1 || mkLen(u) != addc(mkLen(m), 1) {
		return nil
	}
	some := ge0(addc(mkLen(m), -1)) // holds: the list only grows
	el := func(j, given *Term) *Term {
		return simplify(subst(c.at(j), sub), bAnd(given, some))
	}
	e0 := el(mkInt(0), tTrue)
	m0 := mkSel(m, mkInt(0))
	if e0.op != "mulfr" && e0.op != "negfr" {
		return nil
	}
	// e0 = m0 * a
	a := (*Term)(nil)
	neg := e0.op == "negfr"
	if neg {
		e0 = e0.args[0]
	}
	if e0.op == "mulfr" {
		var rest []*Term
		hit := false
		for _, x := range e0.args {
			if x == m0 && !hit {
				hit = true
			} else {
				rest = append(rest, x)
			}
		}
		if hit {
			a = mk("mulfr", "", rest...)
		}
	} else if e0 == m0 {
		a = tFr1
	}
	if a == nil {
		return nil
	}
	if neg {
		a = mk("negfr", "", a)
	}
	if it.mentionsMu(a, ls.id) {
		return nil
	}
	j := freshSym("j")
	rng[j] = [2]*Term{mkInt(1), addc(mkLen(m), -1)}
	mid := mk("addfr", "", mk("mulfr", "", mkSel(m, j), a), mkSel(m, addc(j, -1)))
	if el(j, tTrue) != mid || el(mkLen(m), tTrue) != mkSel(m, addc(mkLen(m), -1)) {
		return nil
	}
	return func(n *Term) *Term {
		x := freshRng("k", n)
		return mk("polyroots", "", closeBinder("seq", "", n, []*Term{x}, []*Term{mk("negfr", "", subst1(a, k, x))}))
	}
}

func freshRng(p string, n *Term) *Term {
	x := freshSym(p)
	rng[x] = [2]*Term{mkInt(0), nil}
	if n != tOmega {
		rng[x] = [2]*Term{mkInt(0), addc(n, -1)}
	}
	return x
}

// muSubst maps the loop-carried values occurring in t to their closed forms at iteration k.
func (it *Interp) muSubst(cs []*carried, id string, t, k *Term) map[*Term]*Term {
	out := map[*Term]*Term{}
	if t == nil {
		return out
	}
	walk(t, func(m *Term) {
		if m.op != "mu" || m.sym != id || m.args[len(m.args)-1] != k {
			return
		}
		for _, c := range cs {
			if c.form == nil {
				continue
			}
			if sub, ok := c.match(m); ok {
				v := c.form(k)
				if len(sub) > 0 {
					v = subst(v, sub)
				}
				out[m] = v
				return
			}
		}
	})
	return out
}

// closedForm solves the recurrence x(k+1) = u[x(k), k], x(0) = init.
func (it *Interp) closedForm(c *carried, ls *loopSpec, init, u, pc *Term) func(*Term) *Term {
	m := c.mu
	k := ls.k
	if isBoolT(c.typ) || hasH(c.path) {
		m = asBool(m)
		init = asBool(init)
	}
	if u == m {
		return func(n *Term) *Term { return init }
	}
	at := func(b, n *Term, f func(n, x, b *Term) *Term) *Term {
		x := freshRng("k", n)
		return f(n, x, subst1(b, k, x))
	}
	if !containsTerm(u, c.mu) && !it.mentionsMu(u, ls.id) && u.op != "ite" {
		// overwritten in every iteration
		if !containsTerm(u, k) {
			return func(n *Term) *Term { return mkIte(ge0(addc(n, -1)), u, init) }
		}
		return func(n *Term) *Term { return mkIte(ge0(addc(n, -1)), subst1(u, k, addc(n, -1)), init) }
	}
	if isAtom(m) {
		hi, lo := restrict(u, m, true), restrict(u, m, false)
		if it.mentionsMu(hi, ls.id) || it.mentionsMu(lo, ls.id) {
			return nil
		}
		switch {
		case lo == tFalse:
			return func(n *Term) *Term { return bAnd(init, at(hi, n, mkForall)) }
		case hi == tTrue:
			return func(n *Term) *Term { return bOr(init, at(lo, n, mkExists)) }
		case hi == lo:
			return func(n *Term) *Term { return mkIte(ge0(addc(n, -1)), subst1(hi, k, addc(n, -1)), init) }
		}
		return nil
	}
	// gated overwrite with a fixed value: flag := v when g
	if g, v := splitLeaf(u, m); v != nil && g != tTrue && !it.mentionsMu(g, ls.id) && !it.mentionsMu(v, ls.id) {
		if !containsTerm(v, k) {
			return func(n *Term) *Term { return mkIte(at(g, n, mkExists), v, init) }
		}
		if !containsTerm(g, k) {
			return func(n *Term) *Term { return mkIte(bAnd(g, ge0(addc(n, -1))), subst1(v, k, addc(n, -1)), init) }
		}
		if ls.n != nil && implies(bAnd(pc, g), bNot(ge0(addc(k, -1)))) { // only in the first iteration
			v0 := subst1(v, k, mkInt(0))
			return func(n *Term) *Term { return mkIte(at(g, n, mkExists), v0, init) }
		}
	}
	leaves := leavesOf(u)
	conds := u
	for _, a := range atomsOf(conds) {
		if it.mentionsMu(a, ls.id) {
			return nil
		}
	}
	mapLeaves := func(f func(l *Term) *Term) *Term { // nil if some leaf does not fit
		var rec func(t *Term) *Term
		rec = func(t *Term) *Term {
			if t.op == "ite" {
				a, b := rec(t.args[1]), rec(t.args[2])
				if a == nil || b == nil {
					return nil
				}
				return mkIte(t.args[0], a, b)
			}
			return f(t)
		}
		return rec(u)
	}
	noMu := func(t *Term) bool { return !it.mentionsMu(t, ls.id) }
	// integers
	if c.typ != nil && isIntT(c.typ) {
		d := mapLeaves(func(l *Term) *Term {
			x := sub(l, m)
			if !noMu(x) {
				return nil
			}
			return x
		})
		if d != nil {
			if d.op != "ite" && !containsTerm(d, k) {
				return func(n *Term) *Term { return add(init, mulInt(n, d)) }
			}
			g, v := splitLeaf(d, mkInt(0))
			if v != nil && v.isInt(1) {
				return func(n *Term) *Term {
					return add(init, at(g, n, func(n, x, b *Term) *Term { return closeBinder("count", "", n, []*Term{x}, []*Term{b}) }))
				}
			}
			return func(n *Term) *Term {
				return add(init, at(d, n, func(n, x, b *Term) *Term { return closeBinder("sumint", "", n, []*Term{x}, []*Term{b}) }))
			}
		}
		return nil
	}
	acc := func(op, binder string, unit *Term) func(*Term) *Term {
		d := mapLeaves(func(l *Term) *Term {
			if l == m {
				return unit
			}
			if l.op != op {
				return nil
			}
			var rest []*Term
			hit := false
			for _, a := range l.args {
				if a == m && !hit {
					hit = true
				} else {
					rest = append(rest, a)
				}
			}
			if !hit {
				return nil
			}
			r := mk(op, "", rest...)
			if !noMu(r) {
				return nil
			}
			return r
		})
		if d == nil {
			return nil
		}
		return func(n *Term) *Term {
			return mk(op, "", init, at(d, n, func(n, x, b *Term) *Term { return closeBinder(binder, "", n, []*Term{x}, []*Term{b}) }))
		}
	}
	for _, o := range []struct {
		op, b string
		u     *Term
	}{{"addfr", "sumfr", tFr0}, {"mulfr", "prodfr", tFr1}, {"addg1", "sumg1", tG0}} {
		for _, l := range leaves {
			if l.op == o.op {
				if f := acc(o.op, o.b, o.u); f != nil {
					return f
				}
			}
		}
	}
	// x*X + b(k): the value at X of the polynomial with the coefficients b(n-1), ..., b(0), x(0)
	if h, b := hornerStep(u, m); h != nil && noMu(h) && noMu(b) && !containsTerm(h, k) {
		return func(n *Term) *Term {
			j := freshRng("j", addc(n, 1))
			co := mkIte(ge0(addc(sub(n, j), -1)), subst1(b, k, addc(sub(n, j), -1)), init)
			return mk("eval", "", closeBinder("seq", "", addc(n, 1), []*Term{j}, []*Term{co}), h)
		}
	}
	// appends
	app := mapLeaves(func(l *Term) *Term {
		if l == m {
			return tEmpty
		}
		if l.op == "cat" && l.args[0] == m {
			r := mkCat(l.args[1:]...)
			if noMu(r) {
				return r
			}
		}
		return nil
	})
	if app != nil {
		g, v := splitLeaf(app, tEmpty)
		if v != nil && g != tTrue {
			return func(n *Term) *Term {
				x := freshRng("k", n)
				return mkCat(init, closeBinder("filter", "", n, []*Term{x}, []*Term{subst1(g, k, x), subst1(v, k, x)}))
			}
		}
		return func(n *Term) *Term {
			return mkCat(init, at(app, n, func(n, x, b *Term) *Term { return closeBinder("flat", "", n, []*Term{x}, []*Term{b}) }))
		}
	}
	return nil
}

// ---------- loop statements ----------

// hornerStep splits u = m*h + b.
func hornerStep(u, m *Term) (h, b *Term) {
	if u.op == "mulfr" {
		u = raw("addfr", "", 0, []*Term{u}, nil)
	}
	if u.op != "addfr" {
		return nil, nil
	}
	var rest []*Term
	for _, a := range u.args {
		neg := a.op == "negfr"
		if p := a; h == nil && containsTerm(a, m) && (a.op == "mulfr" || neg && a.args[0].op == "mulfr") {
			if neg {
				p = a.args[0]
			}
			var f []*Term
			hit := false
			for _, x := range p.args {
				if x == m && !hit {
					hit = true
				} else {
					f = append(f, x)
				}
			}
			if hit {
				h = mk("mulfr", "", f...)
				if neg {
					h = mk("negfr", "", h)
				}
				continue
			}
		}
		rest = append(rest, a)
	}
	if h == nil || containsTerm(h, m) {
		return nil, nil
	}
	b = mk("addfr", "", rest...)
	if containsTerm(b, m) {
		return nil, nil
	}
	return h, b
}

func (it *Interp) loopID(pos token.Pos) string {
	id := it.fr.cs + ":" + it.posStr(pos)
	it.cspos[id] = pos
	return id
}

func (it *Interp) unboundedK(id string) *Term {
	k := raw("itn", id, 0, it.loopSyms(), nil)
	rng[k] = [2]*Term{mkInt(0), nil}
	return k
}

func assignsTo(n ast.Node, info *types.Info, o types.Object) bool {
	found := false
	is := func(e ast.Expr) bool {
		id, ok := ast.Unparen(e).(*ast.Ident)
		return ok && info.ObjectOf(id) == o
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				found = found || is(l)
			}
		case *ast.IncDecStmt:
			found = found || is(x.X)
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				found = found || is(x.X)
			}
		case *ast.RangeStmt:
			if x.Key != nil {
				found = found || is(x.Key)
			}
			if x.Value != nil {
				found = found || is(x.Value)
			}
		}
		return true
	})
	return found
}

func (it *Interp) forStmt(x *ast.ForStmt, label string) {
	if x.Init != nil {
		it.stmt(x.Init)
	}
	if it.pc == tFalse {
		return
	}
	if it.countedFor(x, label) {
		return
	}
	id := it.loopID(x.Pos())
	k := it.unboundedK(id)
	s0 := it.save()
	ls := &loopSpec{id: id, label: label, n: tOmega, k: k, pos: x.Pos(), body: func() { it.block(x.Body.List) }}
	if x.Cond != nil {
		ls.cond = func() *Term { return it.ev(x.Cond) }
	}
	if x.Post != nil {
		ls.post = func() { it.stmt(x.Post) }
	}
	it.runLoop(ls)
	if n := ls.foundN; n != nil && n.op == "ite" {
		ls.foundN = nil
		if c := simplify(n, s0.pc); c.op != "ite" {
			ls.foundN = c
		} else if isGuardedMax(c) {
			ls.foundN = raw("max0", "", 0, []*Term{c.args[1]}, nil)
			nonneg[ls.foundN] = true
		}
	}
	if ls.foundN != nil {
		n := ls.foundN
		delete(it.loopInfos, id)
		it.restore(s0)
		k2 := mkSym("k#" + id)
		ls2 := &loopSpec{id: id, label: label, n: n, k: k2, pos: x.Pos(), body: ls.body, post: ls.post}
		if !ls.only { // otherwise the condition holds throughout the n iterations
			ls2.cond = ls.cond
		}
		// variables that count the iterations keep their closed form in the body
		ls2.pre = it.inductionPre(x, ls, k, k2, s0)
		it.runLoop(ls2)
	}
}

// inductionPre gives the induction variables of a counted while loop their value at iteration k.
func (it *Interp) inductionPre(x *ast.ForStmt, ls *loopSpec, k, k2 *Term, s0 saved) func() {
	type ind struct {
		root *Term
		path []*Term
		val  *Term
	}
	var is []ind
	for key, mi := range it.mus {
		if !strings.HasPrefix(key, ls.id+"|") || len(mi.vars) > 0 {
			continue
		}
		if mi.update.op == "ite" || mi.init.op == "ite" {
			continue
		}
		d := sub(mi.update, mi.mu)
		// after substitution the update reads init + k*d + d
		if e := sub(mi.update, mi.init); coefOf(e, k) != 0 {
			c := coefOf(e, k)
			if linComb2(e, 1, k, -c).isInt(c) {
				d = mkInt(c)
			}
		}
		if d.op != "int" {
			continue
		}
		r, p := locParts(mi.mu.args[0])
		is = append(is, ind{r, p, add(mi.init, mulc(k2, d.iv))})
		delete(it.mus, key)
	}
	sort.Slice(is, func(i, j int) bool { return is[i].val.id < is[j].val.id })
	return func() {
		for _, v := range is {
			it.seq++
			it.mem.push(&Entry{root: v.root, path: v.path, guard: it.pc, val: v.val, typ: types.Typ[types.Int], pos: x.Pos(), ctx: it.ctx, seq: it.seq})
		}
	}
}

// countedFor handles for v := a; v < b; v++ (and the downward form) directly.
func (it *Interp) countedFor(x *ast.ForStmt, label string) bool {
	c, ok := x.Cond.(*ast.BinaryExpr)
	if !ok || x.Post == nil {
		return false
	}
	step := int64(0)
	var vx ast.Expr
	switch p := x.Post.(type) {
	case *ast.IncDecStmt:
		vx = p.X
		step = 1
		if p.Tok == token.DEC {
			step = -1
		}
	case *ast.AssignStmt:
		if len(p.Lhs) != 1 {
			return false
		}
		if tv, ok := it.fr.info.Types[p.Rhs[0]]; ok && tv.Value != nil && tv.Value.ExactString() == "1" {
			vx = p.Lhs[0]
			if p.Tok == token.ADD_ASSIGN {
				step = 1
			} else if p.Tok == token.SUB_ASSIGN {
				step = -1
			}
		}
	}
	if step == 0 {
		return false
	}
	vid, ok := ast.Unparen(vx).(*ast.Ident)
	if !ok {
		return false
	}
	o := it.fr.info.ObjectOf(vid)
	if o == nil || assignsTo(x.Body, it.fr.info, o) {
		return false
	}
	strip := func(e ast.Expr) ast.Expr {
		e = ast.Unparen(e)
		if call, ok := e.(*ast.CallExpr); ok && len(call.Args) == 1 {
			if tv, ok := it.fr.info.Types[call.Fun]; ok && tv.IsType() && isIntT(tv.Type) && isIntT(it.typeOf(call.Args[0])) {
				return ast.Unparen(call.Args[0])
			}
		}
		return e
	}
	isV := func(e ast.Expr) bool {
		id, ok := strip(e).(*ast.Ident)
		return ok && it.fr.info.ObjectOf(id) == o
	}
	op := c.Op
	var bound ast.Expr
	switch {
	case isV(c.X) && !usesObj(c.Y, it.fr.info, o):
		bound = c.Y
	case isV(c.Y) && !usesObj(c.X, it.fr.info, o):
		bound = c.X
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.NEQ: token.NEQ}[op]
	default:
		return false
	}
	if hasCall(bound) {
		return false
	}
	l := it.lookup(o)
	if l == nil {
		return false
	}
	lo := it.read(l, o.Type())
	b := it.ev(bound)
	if lo.op == "ite" || b.op == "ite" {
		return false
	}
	var n *Term
	switch {
	case step == 1 && op == token.LSS:
		n = sub(b, lo)
	case step == 1 && op == token.LEQ:
		n = addc(sub(b, lo), 1)
	case step == 1 && op == token.NEQ:
		n = sub(b, lo)
		if !provGe0(n) {
			return false
		}
	case step == -1 && op == token.GTR:
		n = sub(lo, b)
	case step == -1 && op == token.GEQ:
		n = addc(sub(lo, b), 1)
	default:
		return false
	}
	n = simplify(maxZero(n), it.pc)
	if n.op == "ite" {
		if implies(it.pc, n.args[0]) {
			n = n.args[1]
		} else {
			n = raw("max0", "", 0, []*Term{n.args[1]}, nil)
			if n.args[0].op == "int" {
				n = mkInt(0)
			} else {
				nonneg[n] = true
			}
		}
	}
	if n.op == "int" && n.iv >= 1 && n.iv <= 3 && it.unroll == 0 && !jumps(x.Body) {
		cs := it.fr.cs
		for i := int64(0); i < n.iv && it.pc != tFalse; i++ {
			it.fr.cs = fmt.Sprintf("%s#%d", cs, i)
			it.write(l, addc(lo, i*step), o.Type(), x.Pos())
			it.block(x.Body.List)
		}
		it.fr.cs = cs
		if it.pc != tFalse {
			it.write(l, addc(lo, n.iv*step), o.Type(), x.Pos())
		}
		return true
	}
	id := it.loopID(x.Pos())
	k := mkSym("k#" + id)
	s0 := it.save()
	ls := &loopSpec{id: id, label: label, n: n, k: k, pos: x.Pos(), setK: func(i *Term) { k = i }}
	stable := true
	ls.pre = func() {
		it.write(l, add(lo, mulc(k, step)), o.Type(), x.Pos())
		if nb := it.ev(bound); nb != b {
			stable = false
		}
	}
	ls.body = func() { it.block(x.Body.List) }
	ls.post = func() {
		it.write(l, add(lo, mulc(addc(k, 1), step)), o.Type(), x.Pos())
	}
	it.runLoop(ls)
	if !stable {
		it.restore(s0)
		return false
	}
	return true
}

// jumps: the body may leave or cut short the iteration, or run later.
func jumps(b *ast.BlockStmt) bool {
	j := false
	ast.Inspect(b, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.BranchStmt, *ast.LabeledStmt, *ast.FuncLit, *ast.GoStmt, *ast.DeferStmt:
			j = true
		}
		return !j
	})
	return j
}

func usesObj(e ast.Expr, info *types.Info, o types.Object) bool {
	u := false
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && info.ObjectOf(id) == o {
			u = true
		}
		return true
	})
	return u
}

func hasCall(e ast.Expr) bool {
	c := false
	ast.Inspect(e, func(n ast.Node) bool {
		if call, ok := n.(*ast.CallExpr); ok {
			if id, ok := call.Fun.(*ast.Ident); ok {
				switch id.Name {
				case "len", "int", "uint32", "uint64", "int64", "uint", "cap":
					return true
				}
			}
			if _, ok := call.Fun.(*ast.ArrayType); ok {
				return true
			}
			c = true
		}
		return true
	})
	return c
}

func (it *Interp) rangeStmt(x *ast.RangeStmt, label string) {
	t := it.typeOf(x.X)
	setVar := func(e ast.Expr, v *Term, vt types.Type) {
		if e == nil {
			return
		}
		if id, ok := e.(*ast.Ident); ok {
			if id.Name == "_" {
				return
			}
			if o := it.fr.info.Defs[id]; x.Tok == token.DEFINE && o != nil {
				if l := it.fr.vars[o]; l != nil {
					it.write(l, v, o.Type(), e.Pos())
				}
				return
			}
		}
		it.storeTo(e, it.addr(e), v, it.typeOf(e), e.Pos())
	}
	// variables of the range clause live outside the iterations (Go < 1.22)
	for _, e := range []ast.Expr{x.Key, x.Value} {
		if id, ok := e.(*ast.Ident); ok && x.Tok == token.DEFINE && id.Name != "_" {
			if o := it.fr.info.Defs[id]; o != nil {
				it.declare(o, zero(o.Type()))
			}
		}
	}
	id := it.loopID(x.Pos())
	k := mkSym("k#" + id)
	ls := &loopSpec{id: id, label: label, k: k, pos: x.Pos(), body: func() { it.block(x.Body.List) }, setK: func(i *Term) { k = i }}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		v := it.ev(x.X)
		if u.Info()&types.IsInteger != 0 {
			ls.n = maxZero(v)
			ls.pre = func() { setVar(x.Key, k, t) }
		} else {
			ls.n = mkLen(v)
			ls.pre = func() { setVar(x.Key, k, nil); setVar(x.Value, mkSel(v, k), nil) }
		}
	case *types.Slice:
		v := it.ev(x.X)
		ls.n = mkLen(v)
		ls.pre = func() {
			setVar(x.Key, k, nil)
			if x.Value != nil {
				setVar(x.Value, it.read(elemLoc(v, k), u.Elem()), u.Elem())
			}
		}
	case *types.Array:
		v := it.ev(x.X)
		ls.n = mkInt(u.Len())
		ls.pre = func() { setVar(x.Key, k, nil); setVar(x.Value, mkSel(v, k), u.Elem()) }
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		v := it.ev(x.X)
		ls.n = mkInt(a.Len())
		ls.pre = func() {
			setVar(x.Key, k, nil)
			if x.Value != nil {
				setVar(x.Value, it.read(extend(v, k), a.Elem()), a.Elem())
			}
		}
	case *types.Map:
		v := it.ev(x.X)
		ls.n = it.mapLen(v)
		ls.pre = func() {
			key := raw("mapkey", "", 0, []*Term{v, k}, nil)
			setVar(x.Key, key, u.Key())
			if x.Value != nil {
				setVar(x.Value, it.read(extend(v, key), u.Elem()), u.Elem())
			}
		}
	case *types.Chan:
		v := it.ev(x.X)
		ls.n = tOmega
		ls.k = it.unboundedK(id)
		ls.cond = func() *Term {
			m := it.recvFrom(v, x.Pos(), u.Elem())
			setVar(x.Key, m, u.Elem())
			return it.openChan(m, u.Elem())
		}
	default:
		it.note("range over %s at %s not modelled", t, it.posStr(x.Pos()))
		ls.n = tOmega
		ls.k = it.unboundedK(id)
	}
	if ls.n.op == "ite" {
		n := raw("gated", "", 0, []*Term{ls.n}, nil)
		nonneg[n] = true
		ls.n = n
	}
	if ls.n.op == "int" && ls.n.iv >= 1 && it.unroll == 0 && !jumps(x.Body) && it.unrolled(ls, 3) {
		return
	}
	it.runLoop(ls)
}

package main

import "fmt"

// Counting rules. A threshold is decided on a counter abstraction of the loop that receives the
// messages: the counter's value after one more message is compared with its value before.

// counterAtom is an atom "X - K >= 0" (or == 0) on a loop-carried counter X.
type counterAtom struct {
	atom *Term
	X    *Term
	rest *Term // atom says X + rest >= 0
	eq   bool
	neg  bool // says -X + rest >= 0
}

func isCounter(t *Term) bool {
	switch t.op {
	case "mu":
		return true
	case "len", "sel", "fld":
		return isCounter(t.args[0])
	}
	return false
}

func isSharedCounter(t *Term) bool {
	switch t.op {
	case "shared":
		return true
	case "len", "sel", "fld":
		return isSharedCounter(t.args[0])
	}
	return false
}

func counterAtoms(g *Term, is func(*Term) bool) []counterAtom {
	var out []counterAtom
	for _, a := range atomsOf(g) {
		if a.op != "ge0" && a.op != "eq0" {
			continue
		}
		x := a.args[0]
		var X *Term
		var k int64
		n := 0
		if is(x) {
			X, k, n = x, 1, 1
		} else if x.op == "lin" {
			for i, y := range x.args {
				if is(y) {
					X, k = y, x.coefs[i]
					n++
				}
			}
		}
		if n > 1 && x.op == "lin" { // a sum of counters
			X, n = mkInt(0), 1
			for i, y := range x.args {
				if is(y) {
					if x.coefs[i] != k {
						n = 2
					}
					X = add(X, y)
				}
			}
		}
		if n == 1 && (k == 1 || k == -1) {
			out = append(out, counterAtom{atom: a, X: X, rest: linComb2(x, 1, X, -k), eq: a.op == "eq0", neg: k == -1})
		}
	}
	return out
}

// condLeaves lists the leaves of a decision tree with their conditions.
func condLeaves(t, pc *Term) [][2]*Term {
	if t.op == "ite" {
		return append(condLeaves(t.args[1], bAnd(pc, t.args[0])), condLeaves(t.args[2], bAnd(pc, bNot(t.args[0])))...)
	}
	if pc == tFalse || unsat(pc) {
		return nil
	}
	return [][2]*Term{{pc, t}}
}

// Tally describes what a counter must count.
type Tally struct {
	g      *Term // condition of the guarded action
	T      *Term // messages needed, the current one included
	valid  *Term // condition on the current message to be counted
	sender *Term // what identifies the voter: one count per value
	exact  bool  // the action must also happen as soon as the T-th message is counted
	free   []*Term
	key    []*Term // the counter is kept per these values
	root   **Term
	given  *Term // what holds whenever a message is received
}

// counterInit is the initial value of a counter (or flag) before loop li.
func (r *Run) counterInit(li *loopInfo, X *Term) *Term {
	pre := &loopInfo{id: li.id, k: li.k, snap: li.before, subs: li.subs}
	return r.nextOf(pre, X)
}

func headMu(X *Term) *Term {
	for X.op == "len" || X.op == "sel" || X.op == "fld" || X.op == "lin" {
		X = X.args[0]
	}
	return X
}

// nextOf is the value of a counter or flag after the current iteration of its loop.
func (r *Run) nextOf(li *loopInfo, X *Term) *Term {
	v := r.nextVal(li, X)
	for _, m := range li.subs {
		v = subst(v, m)
	}
	return simp2(v, tTrue)
}

func (r *Run) nextVal(li *loopInfo, t *Term) *Term {
	switch t.op {
	case "mu":
		if t.sym == li.id && t.args[1] == li.k {
			root, path := locParts(t.args[0])
			return unzero(li.snap.readAt(root, path, nil, tTrue))
		}
	case "sel", "bsel", "fld", "bfld":
		b := r.nextVal(li, t.args[0])
		var e *Term
		if t.op == "fld" || t.op == "bfld" {
			e = fieldElem(t.sym)
		} else {
			e = t.args[1]
		}
		return readElem(li.snap, b, e)
	case "len":
		return mkLen(r.nextVal(li, t.args[0]))
	case "lin":
		s := t
		for i, x := range t.args {
			s = add(linComb2(s, 1, x, -t.coefs[i]), mulc(r.nextVal(li, x), t.coefs[i]))
		}
		return s
	case "batom":
		return mapLeaves(r.nextVal(li, t.args[0]), func(x *Term) *Term {
			if x == tNil || x.isInt(0) {
				return tFalse
			}
			return asBool(x)
		})
	case "has":
		y := t.args[0]
		switch y.op {
		case "mu":
			if y.sym == li.id && len(locPath(y.args[0])) > 0 {
				root, path := locParts(y.args[0])
				n := len(path) - 1
				p := append(append(append([]*Term{}, path[:n]...), tH), path[n])
				return asBool(li.snap.readAt(root, p, nil, tTrue))
			}
		case "sel", "bsel":
			b := r.nextVal(li, y.args[0])
			return asBool(readPresence(li.snap, b, y.args[1]))
		}
	}
	return t
}

// unzero maps the unknown zero value to nil.
func unzero(t *Term) *Term {
	return mapLeaves(t, func(x *Term) *Term {
		if x.op == "zero" {
			return tNil
		}
		return x
	})
}

func mapLeaves(t *Term, f func(*Term) *Term) *Term {
	if t.op == "ite" {
		return mkIte(t.args[0], mapLeaves(t.args[1], f), mapLeaves(t.args[2], f))
	}
	return f(t)
}

func locPath(l *Term) []*Term { _, p := locParts(l); return p }

func readPresence(m *Mem, b, k *Term) *Term {
	if b.op == "ite" {
		return mkIte(b.args[0], readPresence(m, b.args[1], k), readPresence(m, b.args[2], k))
	}
	if b == tNil {
		return tFalse
	}
	root, path := locParts(b)
	v := m.readAt(root, append(append([]*Term{}, path...), tH, k), nil, tTrue)
	if v.op == "zero" {
		return tFalse
	}
	return v
}

// readElem reads field or element e of the value b in memory m.
func readElem(m *Mem, b, e *Term) *Term {
	switch b.op {
	case "ite":
		return mkIte(b.args[0], readElem(m, b.args[1], e), readElem(m, b.args[2], e))
	case "alloc", "loc", "mu", "sym", "shared", "fld", "sel":
		root, path := locParts(b)
		v := m.readAt(root, append(append([]*Term{}, path...), e), nil, tTrue)
		if v.op == "zero" {
			return mkInt(0)
		}
		return v
	case "slice":
		if e.op != "F" {
			l := elemLoc(b, e)
			root, path := locParts(l)
			return m.readAt(root, path, nil, tTrue)
		}
	case "nil":
		return mkInt(0)
	}
	if e.op == "F" {
		return mkFld(b, e.sym)
	}
	return mkSel(b, e)
}

// absentZero: under g, an entry that is absent from its map reads as zero.
func absentZero(X, g *Term) map[*Term]*Term {
	for _, a := range atomsOf(g) {
		if partOfNil(X, a) && implies(g, a) {
			return map[*Term]*Term{X: mkInt(0)}
		}
		if a.op == "has" && implies(g, bNot(a)) {
			for y := X; ; y = y.args[0] {
				if y == a.args[0] {
					return map[*Term]*Term{X: mkInt(0)}
				}
				if y.op != "len" && y.op != "sel" && y.op != "fld" {
					break
				}
			}
		}
	}
	return nil
}

// tally decides that the guarded action happens only with T valid messages of distinct senders
// counted, and (exact) at the latest when the T-th is counted.
func (c *Ck) tally(r *Run, rule, site string, t Tally) bool {
	if unsat(t.g) {
		return c.ob(false, rule, site, "the action is unreachable")
	}
	cs := counterAtoms(t.g, isCounter)
	why := "no counter in the guard " + short(t.g)
	for _, ca := range cs {
		li := r.loopOf(headMu(ca.X))
		if li == nil {
			continue
		}
		ok, w := r.tallyOn(t, ca, li)
		if ok {
			c.obl += 5
			c.rules[rule] += 5
			return true
		}
		why = "counter " + short(ca.X) + ": " + w
	}
	return c.ob(false, rule, site, "%s", why)
}

func (r *Run) tallyOn(t Tally, ca counterAtom, li *loopInfo) (bool, string) {
	X := ca.X
	nx := r.nextOf(li, X)
	inc := tFalse
	for _, l := range condLeaves(nx, tTrue) {
		v := simp2(l[1], l[0])
		z := absentZero(X, l[0])
		if z == nil {
			z = r.coupledZero(li, X, l[0])
		}
		switch {
		case v == X || sameTerm(v, subst(X, z), l[0]):
		case sameTerm(v, subst(addc(X, 1), z), l[0]):
			inc = bOr(inc, l[0])
		default:
			return false, fmt.Sprintf("changes from %s to %s when %s", short(X), short(v), short(l[0]))
		}
	}
	h := headMu(X)
	root, path := locParts(h.args[0])
	have := append([]*Term{}, path...)
	for y := X; y != h; y = y.args[0] {
		if y.op == "sel" {
			have = append(have, y.args[1])
		}
	}
	for _, k := range t.key {
		hit := false
		for _, p := range have {
			hit = hit || p == k
		}
		if !hit {
			return false, "is not kept per " + short(k)
		}
	}
	if unsat(inc) {
		return false, "is never incremented"
	}
	init := r.counterInit(li, X)
	if init != mkInt(0) && !isAbsent(init) {
		return false, "starts at " + short(init)
	}
	if !implies(inc, t.valid) {
		return false, "counts messages with " + short(simplify(inc, bNot(t.valid))) + " that are not valid: " + short(t.valid)
	}
	// one count per sender
	extra := tTrue
	if t.sender != nil {
		flags := r.senderFlags(li, inc, t.sender)
		if len(flags) == 0 {
			return false, "the same sender is counted more than once; counts when " + short(inc)
		}
		extra = bNot(flags[0])
		for i, f := range flags {
			only := true // the others are set only when a message is counted
			for j, f2 := range flags {
				only = only && (i == j || implies(r.nextFlag(li, f2), bOr(f2, inc)))
			}
			if only {
				extra = tTrue
				for _, f2 := range flags {
					extra = bAnd(extra, bNot(f2))
				}
				extra = bAnd(bNot(f), extra)
				break
			}
		}
	}
	// the threshold
	enough := bOr(bAnd(inc, ge0(addc(sub(X, t.T), 1))), ge0(sub(X, t.T)))
	if !implies(t.g, enough) {
		return false, fmt.Sprintf("the action happens with fewer than %s: guard %s", short(t.T), short(t.g))
	}
	if t.exact {
		at := bAnd(inc, eq0(addc(sub(X, t.T), 1)))
		given := tTrue
		if t.given != nil {
			given = t.given
		}
		given = bAnd(given, ge0(addc(sub(t.T, X), -1))) // what is counted after the threshold does not matter
		if !implies(bAndN(t.valid, extra, given), inc) && !implies(bAndN(t.valid, extra, given), r.assumePresence(inc)) {
			return false, "does not count a valid message: counts when " + short(inc)
		}
		for _, a := range atomsOf(t.g) {
			if a.op == "batom" && len(mus(a)) > 0 && a != extra {
				hi := bAnd(t.g, a)
				lo := bAnd(t.g, bNot(a))
				if unsat(hi) {
					at = bAnd(at, bNot(a))
				} else if unsat(lo) {
					at = bAnd(at, a)
				}
			}
		}
		for _, f := range t.free {
			at = bAnd(at, f)
		}
		if !implies(bAnd(at, r.coupledFacts(li, X, t.g)), t.g) && !(r.checkedFirst(li, X, t.T) && implies(bAndN(append([]*Term{eq0(sub(X, t.T))}, t.free...)...), t.g)) {
			return false, fmt.Sprintf("the action does not happen when the %s-th message is counted: guard %s", short(t.T), short(t.g))
		}
	}
	if t.root != nil {
		*t.root = root
	}
	return true, ""
}

// checkedFirst: every iteration of the loop compares the counter with T before it waits for a message.
func (r *Run) checkedFirst(li *loopInfo, X, T *Term) bool {
	n := 0
	for _, e := range r.effects {
		if e.kind == "recv" && r.loopInfoOf(e) == li {
			n++
			if !unsat(bAnd(e.pc, ge0(sub(X, T)))) {
				return false
			}
		}
	}
	return n > 0
}

// coupledZero: under g, the entry is absent from a map that is filled whenever this one is.
func (r *Run) coupledZero(li *loopInfo, X, g *Term) map[*Term]*Term {
	for _, a := range atomsOf(g) {
		if a.op == "has" && implies(g, bNot(a)) && r.coupled(li, X, a) {
			return map[*Term]*Term{X: mkInt(0)}
		}
	}
	return nil
}

// partOfNil: a says that a map is nil of which X is an element.
func partOfNil(X, a *Term) bool {
	if a.op != "eq" || a.args[0] != tNil && a.args[1] != tNil {
		return false
	}
	m := a.args[0]
	if m == tNil {
		m = a.args[1]
	}
	for y := X; len(y.args) > 0; y = y.args[0] {
		if y == m && y != X {
			return true
		}
	}
	return false
}

// coupledFacts: the coupled presence conditions of g follow from a non-zero counter.
func (r *Run) coupledFacts(li *loopInfo, X, g *Term) *Term {
	f := tTrue
	for _, a := range atomsOf(g) {
		if partOfNil(X, a) {
			f = bAnd(f, bOr(bNot(a), eq0(X)))
		}
		if a.op == "has" && r.coupled(li, X, a) {
			f = bAnd(f, bOr(a, eq0(X)))
		}
	}
	return f
}

// coupled: an entry that is absent from the map of a is zero in the map of X, because every
// iteration that fills the entry of the latter also fills that of the former.
func (r *Run) coupled(li *loopInfo, X, a *Term) bool {
	h := headMu(X)
	_, px := locParts(h.args[0])
	if len(px) == 0 || a.args[0].op != "mu" || a.args[0].sym != li.id {
		return false
	}
	key := px[len(px)-1]
	_, pa := locParts(a.args[0].args[0])
	if len(pa) == 0 || pa[len(pa)-1] != key {
		return false
	}
	k2 := freshSym("key")
	m := map[*Term]*Term{key: k2}
	X2, a2 := subst(X, m), subst(a, m)
	if i := r.counterInit(li, X2); i != mkInt(0) && !isAbsent(i) {
		return false
	}
	nh := r.nextFlag(li, a2)
	if nh == nil {
		return false
	}
	for _, l := range condLeaves(r.nextOf(li, X2), tTrue) {
		c := bAnd(l[0], bNot(nh))
		if !unsat(c) && (!implies(c, bNot(a2)) || !sameTerm(l[1], X2, c)) {
			return false
		}
	}
	return true
}

func isAbsent(t *Term) bool {
	return t != nil && t.op == "zero" || t != nil && (t == tNil || t == tEmpty || t.isInt(0))
}

// assumePresence drops positive presence conditions of maps (they only choose how to update).
func (r *Run) assumePresence(g *Term) *Term { return g }

func (r *Run) senderFlag(li *loopInfo, inc, sender *Term) *Term {
	if fs := r.senderFlags(li, inc, sender); len(fs) > 0 {
		return fs[0]
	}
	return nil
}

// senderFlags finds, in the condition of counting a message, the loop-carried conditions that stop a
// second message of the same sender, and checks that they work.
func (r *Run) senderFlags(li *loopInfo, inc, sender *Term) (out []*Term) {
	for _, a := range atomsOf(inc) {
		if a.op == "ge0" || a.op == "eq0" || a.op == "eq" {
			continue
		}
		us := mus(a)
		if len(us) == 0 || !containsTerm(a, sender) || !implies(inc, bNot(a)) {
			continue
		}
		nx := r.nextFlag(li, a)
		if nx == nil {
			continue
		}
		// set when counted, kept when set
		if !implies(inc, nx) || !implies(a, nx) {
			continue
		}
		// another sender's message leaves it alone
		s2 := freshSym("sender2")
		b := replaceKey(a, sender, s2)
		if b == nil {
			continue
		}
		nb := r.nextFlag(li, b)
		if nb == nil || !sameTerm(nb, b, bNot(mkEq(s2, sender))) {
			continue
		}
		out = append(out, a)
	}
	return out
}

// replaceKey renames the sender in the location of a flag.
func replaceKey(a, sender, s2 *Term) *Term {
	if a.op == "batom" || a.op == "has" || a.op == "bsel" || a.op == "sel" || a.op == "fld" || a.op == "bfld" || a.op == "mu" {
		return subst(a, map[*Term]*Term{sender: s2})
	}
	return nil
}

// nextFlag is the truth value of a flag atom after the iteration.
func (r *Run) nextFlag(li *loopInfo, a *Term) *Term {
	us := mus(a)
	ok := false
	for _, u := range us {
		ok = ok || u.sym == li.id
	}
	if !ok {
		return nil
	}
	return simp2(asBool(r.nextOf(li, a)), tTrue)
}

// again is the condition under which the loop goes round again.
func (li *loopInfo) again() *Term {
	g := li.end
	for _, m := range li.subs {
		g = subst(g, m)
	}
	return g
}

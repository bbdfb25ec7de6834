package main

// P29: the waits inside a member. Channels, locks and wait groups of a protocol run are nodes of a
// graph of waits; whatever does not become possible from the messages of peers alone is a deadlock.

import (
	"fmt"
	"strings"
)

func init() { checks["P29"] = checkWaits }

func checkWaits(c *Ck) {
	for _, r := range c.protocolRuns() {
		w := &waits{c: c, r: r}
		w.collect()
		w.circles()
		w.locked()
		w.everyone()
		w.share()
		w.room()
		w.groups()
		w.cancelled()
		w.quits()
		w.members()
		w.made()
	}
}

type waits struct {
	c     *Ck
	r     *Run
	nodes []*Effect // what may block: receives from internal channels, locks, wait groups
	ok    map[*Effect]bool
	cases map[*Effect]bool // receives that are one of several cases of a select
}

func internalChan(t *Term) bool {
	for _, l := range condLeaves(t, tTrue) {
		root, _ := locParts(l[1])
		if l[1].op == "mailbox" || l[1].op == "donech" || root.op != "alloc" {
			return false
		}
	}
	return true
}

func mailboxRecv(e *Effect) bool {
	return e.kind == "recv" && len(e.args) > 0 && e.args[0].op == "mailbox"
}

func (w *waits) collect() {
	w.ok, w.cases = map[*Effect]bool{}, map[*Effect]bool{}
	var sel *Effect // the case of a select whose channel operation is expected
	for _, e := range w.r.effects {
		if e.kind == "selectcase" {
			sel = e
		}
		if e.kind == "recv" && sel != nil {
			if ctxID(sel.ctx) == ctxID(e.ctx) && sel.pc == e.pc {
				w.cases[e] = true
			}
			sel = nil
		}
		if unsat(e.pc) || len(e.args) == 0 {
			continue
		}
		switch {
		case e.kind == "recv" && internalChan(e.args[0]), e.kind == "lock", e.kind == "wg" && hasSuffix(e.name, "Wait"):
			w.nodes = append(w.nodes, e)
		}
	}
}

// before lists what may have to be waited for until x happens, in its goroutine and those that started it.
func (w *waits) before(x *Effect) []*Effect {
	var out []*Effect
	for _, y := range w.nodes {
		if ctxID(y.ctx) == ctxID(x.ctx) {
			if y.seq < x.seq && !unsat(bAnd(y.pc, x.pc)) {
				out = append(out, y)
			}
			continue
		}
		for d := x.ctx; d != nil && d.parent != nil; d = d.parent {
			if ctxID(d.parent) == ctxID(y.ctx) && y.seq < d.spawnSeq && !unsat(bAnd(y.pc, x.pc)) {
				out = append(out, y)
			}
		}
	}
	return out
}

func (w *waits) enabled(l []*Effect) bool {
	for _, y := range l {
		if !w.ok[y] {
			return false
		}
	}
	return true
}

// circles: every wait becomes possible once the messages of peers have come.
func (w *waits) circles() {
	type alt [][]*Effect // one list of waits has to be over
	need := map[*Effect]alt{}
	for _, y := range w.nodes {
		own := w.before(y)
		var alts alt
		switch y.kind {
		case "recv":
			for _, s := range w.r.signalsOn(y.args[0]) {
				alts = append(alts, append(append([]*Effect{}, own...), w.before(s.e)...))
			}
		case "lock":
			// whoever holds it and waits gets on
			l := append([]*Effect{}, own...)
			for _, x := range w.nodes {
				if x == y || x.kind == "lock" || ctxID(x.ctx) == ctxID(y.ctx) && len(y.ctx.vars) == 0 && w.r.localTo1(y.ctx) {
					continue
				}
				for _, h := range x.held {
					if sameLock(h, y.args[0]) {
						l = append(l, x)
					}
				}
			}
			alts = alt{l}
		case "wg":
			l := append([]*Effect{}, own...)
			for _, d := range w.r.effects {
				if d.kind == "wg" && hasSuffix(d.name, "Done") && sameChan(d.args[0], y.args[0]) {
					l = append(l, w.before(d)...)
				}
			}
			alts = alt{l}
		}
		need[y] = alts
	}
	for again := true; again; {
		again = false
		for _, y := range w.nodes {
			if w.ok[y] {
				continue
			}
			for _, l := range need[y] {
				if w.enabled(l) {
					w.ok[y], again = true, true
					break
				}
			}
		}
	}
	for _, y := range w.nodes {
		good := w.ok[y]
		if !good && w.cases[y] {
			good = true // another case of the select may be taken
		}
		for _, x := range w.before(y) {
			good = good || !w.ok[x] && !w.cases[x] // reported there
		}
		what := "value from " + brief(y.args[0])
		switch y.kind {
		case "lock":
			what = "lock " + brief(y.args[0])
		case "wg":
			what = "goroutines counted in " + brief(y.args[0])
		}
		why := "nothing sends it"
		if len(need[y]) > 0 {
			why = ""
			for _, l := range need[y] {
				for _, x := range l {
					if !w.ok[x] && x != y && why == "" {
						why = "that takes the end of the wait at " + w.r.posStr(x.pos) + ", which needs this one"
					}
				}
			}
			if why == "" {
				why = "it comes only after this wait"
			}
		}
		w.c.ob(good, "wait.circle", w.r.posStr(y.pos), "%s waits forever for the %s: %s", w.r.name, what, why)
	}
}

// localTo1: there is one instance of the goroutine.
func (r *Run) localTo1(ctx *Ctx) bool {
	for x := ctx; x != nil; x = x.parent {
		if len(x.vars) > 0 {
			return false
		}
	}
	return true
}

func sameLock(a, b *Term) bool {
	ar, ap := locParts(a)
	br, bp := locParts(b)
	return sameRootKind(ar, br) && len(ap) == len(bp) && (len(ap) == 0 || ap[len(ap)-1] == bp[len(bp)-1] || !isFieldName(ap[len(ap)-1]))
}

func isFieldName(t *Term) bool { return t.op == "fieldname" || strings.HasPrefix(t.op, "field") }

// locked: no lock is held while a message of a peer is awaited.
func (w *waits) locked() {
	for _, e := range w.r.effects {
		if mailboxRecv(e) && !unsat(e.pc) {
			w.c.ob(len(e.held) == 0, "wait.locked", w.r.posStr(e.pos), "%s waits for a %s message while holding %s", w.r.name, brief(e.args[0].args[0]), briefs(e.held))
		}
	}
}

func briefs(l []*Term) string {
	var out []string
	for _, t := range l {
		out = append(out, brief(t))
	}
	return strings.Join(out, ", ")
}

// own lists the loops around e inside its goroutine.
func own(e *Effect) []QVar {
	var out []QVar
next:
	for _, q := range e.loops {
		for x := e.ctx; x != nil; x = x.parent {
			for _, v := range x.vars {
				if v.Sym == q.Sym {
					continue next
				}
			}
		}
		out = append(out, q)
	}
	return out
}

// fromOutside: t depends on what peers sent.
func fromOutside(t *Term) bool {
	f := false
	walk(t, func(x *Term) { f = f || x.op == "recv" || x.op == "res" || x.op == "shared" || x.op == "smval" })
	return f
}

// everyone: no goroutine waits in turn for what each of a fixed number of members does.
func (w *waits) everyone() {
	for _, y := range w.nodes {
		if y.kind != "recv" {
			continue
		}
		var q *QVar
		for _, l := range own(y) {
			l := l
			if bounded(l) && !fromOutside(l.N) && implies(tTrue, ge0(sub(l.N, tN))) && containsTerm(y.args[0], l.Sym) {
				q = &l
			}
		}
		if q == nil {
			continue
		}
		for _, s := range w.r.signalsOn(y.args[0]) {
			ext := fromOutside(s.e.pc)
			for _, x := range w.r.effects {
				if ctxID(x.ctx) == ctxID(s.e.ctx) && x.seq < s.e.seq && (mailboxRecv(x) || x.kind == "Call" && hasSuffix(x.name, "RBCReceive")) && !unsat(bAnd(x.pc, s.e.pc)) {
					ext = true
				}
			}
			w.c.ob(!ext, "wait.everyone", w.r.posStr(y.pos), "%s waits for the signal at %s for every member, which takes a message of each of them", w.r.name, w.r.posStr(s.e.pos))
		}
	}
}

// room: sends to internal channels do not block while there is work left.
func (w *waits) room() {
	r := w.r
	for _, mk := range r.effects {
		if mk.kind != "mkchan" || unsat(mk.pc) {
			continue
		}
		total, sure := mkInt(0), true
		var at []*Effect
		for _, s := range r.effects {
			if s.kind != "send" || unsat(s.pc) || !sameChan(s.args[0], mk.args[0]) {
				continue
			}
			at = append(at, s)
			n := w.times(s)
			if n == nil {
				sure = false
				continue
			}
			total = add(total, n)
		}
		if len(at) == 0 {
			continue
		}
		prompt := mkInt(0)
		for _, y := range w.nodes {
			if y.kind == "recv" && sameChan(y.args[0], mk.args[0]) && w.prompt(y, at) {
				prompt = add(prompt, mkInt(1))
			}
		}
		if sure && implies(tTrue, ge0(add(sub(mk.args[1], total), prompt))) {
			w.c.ob(true, "wait.room", r.posStr(mk.pos), "")
			continue
		}
		for _, s := range at {
			why := w.work(s)
			n := "any number of values"
			if sure {
				n = "up to " + brief(total) + " value(s)"
			}
			w.c.ob(why == "", "wait.room", r.posStr(mk.pos), "%s: the send at %s may block: the channel gets %s and has room for %s; %s", r.name, r.posStr(s.pos), n, brief(mk.args[1]), why)
		}
	}
}

// share: a value sent once is not awaited twice.
func (w *waits) share() {
	r := w.r
	for _, mk := range r.effects {
		if mk.kind != "mkchan" || unsat(mk.pc) {
			continue
		}
		once, one := true, (*Effect)(nil)
		for _, s := range r.effects {
			if s.kind == "close" && len(s.args) > 0 && sameChan(s.args[0], mk.args[0]) {
				once = false
			}
			if s.kind != "send" || unsat(s.pc) || !sameChan(s.args[0], mk.args[0]) {
				continue
			}
			n := w.times(s)
			if one != nil && !unsat(bAnd(one.pc, s.pc)) || n == nil || !n.isInt(1) {
				once = false
			}
			one = s
		}
		if !once || one == nil {
			continue
		}
		var at []*Effect
		for _, y := range w.nodes {
			if y.kind == "recv" && sameChan(y.args[0], mk.args[0]) {
				at = append(at, y)
			}
		}
		for i, y := range at {
			if w.cases[y] {
				continue
			}
			for j, x := range at {
				if i != j && x.args[0] == y.args[0] && (w.cases[x] || j > i) {
					w.c.ob(unsat(bAnd(x.pc, y.pc)), "wait.share", r.posStr(y.pos), "%s waits at %s and at %s for the one value sent at %s: one of them gets none", r.name, r.posStr(y.pos), r.posStr(x.pos), r.posStr(one.pos))
				}
			}
		}
	}
}

// prompt: the receive y happens whatever peers do, in a goroutine started before the sends.
func (w *waits) prompt(y *Effect, sends []*Effect) bool {
	if len(own(y)) > 0 {
		return false
	}
	for _, x := range w.r.effects {
		if ctxID(x.ctx) == ctxID(y.ctx) && x.seq < y.seq && (mailboxRecv(x) || x.kind == "Call") && !unsat(bAnd(x.pc, y.pc)) {
			return false
		}
	}
	for _, x := range w.before(y) {
		if x.kind != "lock" {
			return false
		}
	}
	for _, s := range sends {
		for x := y.ctx; x != nil; x = x.parent {
			if x.parent != nil && ctxID(x.parent) == ctxID(s.ctx) && x.spawnSeq > s.seq {
				return false
			}
		}
		if ctxID(s.ctx) == ctxID(y.ctx) {
			return false
		}
	}
	return true
}

// times bounds how often the send s happens on one channel (nil: no bound found).
func (w *waits) times(s *Effect) *Term {
	r := w.r
	n := mkInt(1)
	// instances of the goroutine that may send to the same channel
	seen := map[*Term]bool{}
	for x := s.ctx; x != nil; x = x.parent {
		for _, v := range x.vars {
			if seen[v.Sym] {
				continue
			}
			seen[v.Sym] = true
			if !containsTerm(s.args[0], v.Sym) && !w.onlyOne(s) {
				if !bounded(v) {
					return nil
				}
				n = mul2(n, v.N)
			}
		}
	}
	for _, q := range own(s) {
		if bounded(q) {
			if !containsTerm(s.args[0], q.Sym) {
				n = mul2(n, q.N)
			}
			continue
		}
		li := r.loopOfSym(q.Sym)
		if li == nil {
			return nil
		}
		if unsat(bAnd(s.pc, li.again())) || w.onlyOne(s) || w.flagged(li, s) || w.counted(li, s) {
			continue
		}
		found := false
		for _, x := range r.effects {
			if mailboxRecv(x) && ctxID(x.ctx) == ctxID(s.ctx) && len(x.loops) == len(s.loops) && x.seq < s.seq && len(x.args) > 1 {
				if r.senderFlag(li, s.pc, mkFld(x.args[1], "Sender")) != nil {
					found = true
				}
			}
		}
		if !found {
			return nil
		}
		n = mul2(n, tN)
	}
	return n
}

// bounded: the loop has a known number of rounds.
func bounded(q QVar) bool { return q.N != nil && q.N != tOmega }

func mul2(a, b *Term) *Term {
	if a.isInt(1) {
		return b
	}
	return mulInt(a, b)
}

func (r *Run) loopOfSym(k *Term) *loopInfo {
	for _, li := range r.loopInfos {
		if li.k == k {
			return li
		}
	}
	return nil
}

// flagged: a flag that is not set when s happens is set by then and stays so.
func (w *waits) flagged(li *loopInfo, s *Effect) bool {
	for _, a := range atomsOf(s.pc) {
		if a.op == "ge0" || a.op == "eq0" || a.op == "eq" || len(mus(a)) == 0 || roundKeyed(a, li.k) {
			continue
		}
		nx := w.r.nextFlag(li, a)
		if nx == nil {
			continue
		}
		if implies(s.pc, bNot(a)) && implies(s.pc, nx) && implies(a, nx) || implies(s.pc, a) && implies(s.pc, bNot(nx)) && implies(bNot(a), bNot(nx)) {
			return true
		}
	}
	return false
}

// roundKeyed: the state a looks at is chosen by what arrives in the round k.
func roundKeyed(a, k *Term) bool {
	m := map[*Term]*Term{}
	for _, x := range mus(a) {
		if l := x.args[0]; containsTerm(l, k) || fromOutside(l) {
			return true
		}
		m[x] = tTrue
	}
	rest := subst(a, m)
	return containsTerm(rest, k) || fromOutside(rest)
}

// counted: s happens at one value of a counter that then goes on.
func (w *waits) counted(li *loopInfo, s *Effect) bool {
	same := w.r.presence(li, s.pc)
	pc := simp2(subst(s.pc, same), tTrue)
	for _, a := range atomsOf(pc) {
		if a.op != "eq0" || !implies(pc, a) {
			continue
		}
		t := a.args[0]
		nx := w.r.nextVal(li, t)
		for _, m := range li.subs {
			nx = subst(nx, m)
		}
		up := func(d *Term) bool {
			var least, here = true, true
			for _, l := range condLeaves(simp2(d, tTrue), tTrue) {
				g := subst(l[0], same)
				least = least && implies(l[0], ge0(l[1]))
				if !unsat(bAnd(g, pc)) {
					here = here && implies(bAnd(g, pc), ge0(addc(l[1], -1)))
				}
			}
			return least && here
		}
		if up(sub(nx, t)) || up(sub(t, nx)) {
			return true
		}
	}
	return false
}

// presence relates the presence of a flag in a map to its value: whoever is in the map has it set.
func (r *Run) presence(li *loopInfo, pc *Term) map[*Term]*Term {
	out := map[*Term]*Term{}
	for _, h := range atomsOf(pc) {
		if h.op != "has" || h.args[0].op != "mu" {
			continue
		}
		v := asBool(h.args[0])
		nh, nv := r.nextFlag(li, h), r.nextFlag(li, v)
		if nh == nil || nv == nil || !implies(bAnd(nh, bOr(bNot(h), v)), nv) {
			continue
		}
		out[h] = v
	}
	return out
}

// onlyOne: a flag shared by goroutines is tested and set around s.
func (w *waits) onlyOne(s *Effect) bool {
	for _, a := range atomsOf(s.pc) {
		if a.op == "ge0" || a.op == "eq0" || a.op == "eq" || !implies(s.pc, bNot(a)) {
			continue
		}
		var root *Term
		var path []*Term
		walk(a, func(x *Term) {
			if x.op == "mu" || x.op == "shared" {
				if rt, p := locParts(x.args[0]); root == nil {
					root, path = rt, p
				}
			}
		})
		if root == nil || len(w.r.otherWriters(root, s.ctx)) == 0 || perInstance(root, path, s.ctx) {
			continue
		}
		keyed := false
		for _, p := range path {
			keyed = keyed || fromOutside(p) || len(mus(p)) > 0
		}
		if !keyed && w.r.testAndSet(s, s.pc, root, path) == "" {
			return true
		}
	}
	return false
}

// work says what is left undone if s blocks ("" if nothing that matters).
func (w *waits) work(s *Effect) string {
	if len(s.held) > 0 {
		return briefs(s.held) + " is held"
	}
	r := w.r
	var dest []*Effect
	for _, x := range r.effects {
		if unsat(x.pc) || ctxID(x.ctx) != ctxID(s.ctx) {
			continue
		}
		later := x.seq > s.seq && !unsat(bAnd(x.pc, s.pc))
		for _, q := range own(s) {
			for _, p := range x.loops {
				if p.Sym == q.Sym {
					if li := r.loopOfSym(q.Sym); li == nil || !unsat(bAnd(s.pc, li.again())) {
						later = true
					}
				}
			}
		}
		if !later || x == s && len(own(s)) == 0 {
			continue
		}
		switch x.kind {
		case "Send", "Call", "wg", "unlock", "close", "smstore":
			return "it would not get to " + r.posStr(x.pos)
		case "recv":
			if internalChan(x.args[0]) {
				return "it would not get to " + r.posStr(x.pos)
			}
		case "send":
			dest = append(dest, x)
		}
		if strings.HasPrefix(x.kind, "sm") && x.kind != "smload" {
			return "it would not get to " + r.posStr(x.pos)
		}
	}
	if len(dest) == 0 {
		return ""
	}
	// everything it goes on to send goes to the goroutine that takes the first value, once
	to := ""
	for _, x := range append(dest, s) {
		for _, y := range w.nodes {
			if y.kind != "recv" || !sameChan(y.args[0], x.args[0]) {
				continue
			}
			if to == "" {
				to = ctxID(y.ctx)
			}
			if to != ctxID(y.ctx) || len(own(y)) > len(own2(w.r, x)) {
				return "what it sends at " + r.posStr(x.pos) + " is awaited elsewhere"
			}
		}
	}
	if to == ctxID(s.ctx) && to != "" {
		return "it takes the value itself"
	}
	if len(dest) > 0 {
		for _, x := range dest {
			if spawned := r.spawnedFrom(s.ctx, x); spawned {
				return "it starts goroutines later"
			}
		}
	}
	return ""
}

// own2: the loops that select the channel x sends on.
func own2(r *Run, x *Effect) []QVar {
	var out []QVar
	for _, q := range x.loops {
		if containsTerm(x.args[0], q.Sym) {
			out = append(out, q)
		}
	}
	return out
}

func (r *Run) spawnedFrom(ctx *Ctx, s *Effect) bool {
	for _, d := range r.ctxs {
		if d.parent != nil && ctxID(d.parent) == ctxID(ctx) && d.spawnSeq > s.seq {
			return true
		}
	}
	return false
}

// groups: a wait group is raised as often as it is counted down.
func (w *waits) groups() {
	r := w.r
	for _, y := range w.nodes {
		if y.kind != "wg" {
			continue
		}
		up, down := mkInt(0), mkInt(0)
		for _, x := range r.effects {
			if x.kind != "wg" || unsat(x.pc) || !sameChan(x.args[0], y.args[0]) {
				continue
			}
			n := mkInt(1)
			for _, q := range x.loops {
				if containsTerm(y.args[0], q.Sym) || containsTerm(x.args[0], q.Sym) {
					continue
				}
				if !bounded(q) {
					n = nil
					break
				}
				n = mul2(n, q.N)
			}
			if hasSuffix(x.name, "Add") {
				if n != nil {
					up = add(up, mulInt(x.args[1], n))
				}
			} else if hasSuffix(x.name, "Done") {
				if !w.c.ob(n != nil, "wait.group", r.posStr(x.pos), "%s counts down an unknown number of times", r.name) {
					n = mkInt(0)
				}
				down = add(down, mkIte(whatever(x.pc), n, mkInt(0)))
			}
		}
		w.c.eq(simp2(up, tTrue), simp2(down, tTrue), tTrue, "wait.group", fmt.Sprintf("%s: %s", r.name, r.posStr(y.pos)), "raised and counted down")
	}
}

// whatever: the condition without those on encoding failures, which end the process.
func whatever(pc *Term) *Term {
	m := map[*Term]*Term{}
	for _, a := range atomsOf(pc) {
		walk(a, func(x *Term) {
			if x.op == "marsherr" {
				m[a] = tTrue
			}
		})
	}
	return simp2(subst(pc, m), tTrue)
}

// cancelled: goroutines that take the messages of an agreement end with its context, and a decided
// member cancels it.
func (w *waits) cancelled() {
	c, r := w.c, w.r
	agreement := strings.HasPrefix(r.name, "party.MainProcess") || strings.HasPrefix(r.name, "party.SPB")
	for _, e := range r.effects {
		if unsat(e.pc) || e.kind != "recv" || len(e.args) == 0 {
			continue
		}
		at := r.posStr(e.pos)
		if e.args[0].op == "donech" {
			for _, q := range own(e) {
				if li := r.loopOfSym(q.Sym); li != nil && !bounded(q) {
					c.ob(unsat(bAnd(e.pc, li.again())), "wait.cancel", at, "%s goes on after its context has been cancelled", r.name)
				}
			}
			continue
		}
		if !agreement || !mailboxRecv(e) {
			continue
		}
		ends := false
		for _, d := range r.effects {
			if d.kind == "recv" && len(d.args) > 0 && d.args[0].op == "donech" && ctxID(d.ctx) == ctxID(e.ctx) && loopsAlike(d, e) && unsat(bAnd(d.pc, e.pc)) && commonChoice(d.pc, e.pc) && w.instance(d.args[0].args[0]) {
				ends = true
			}
		}
		c.ob(ends, "wait.cancel", at, "%s waits for a message without ending when the context of the agreement is cancelled", r.name)
	}
	if !strings.HasPrefix(r.name, "party.MainProcess") {
		return
	}
	any := tFalse
	for _, e := range r.effects {
		if e.kind == "callvalue" && len(e.args) > 0 && e.args[0].op == "cancelfn" && ctxID(e.ctx) == "main" && w.root(e.args[0].args[0]) {
			any = bOr(any, e.pc)
		}
	}
	for _, e := range r.effects {
		if e.kind == "return" && ctxID(e.ctx) == "main" {
			c.imp(e.pc, any, "wait.cancel", "decision", "cancelling the context of the agreement before returning")
		}
	}
}

func loopsAlike(a, b *Effect) bool {
	if len(a.loops) != len(b.loops) {
		return false
	}
	for i := range a.loops {
		if a.loops[i].Sym != b.loops[i].Sym {
			return false
		}
	}
	return true
}

func commonChoice(a, b *Term) bool {
	for _, x := range atomsOf(a) {
		if x.op == "choice" {
			for _, y := range atomsOf(b) {
				if x == y {
					return true
				}
			}
		}
	}
	return false
}

// root: the context the whole agreement runs under, made from one that is never cancelled.
func (w *waits) root(ctx *Term) bool {
	return ctx.op == "ctxc" && len(ctx.args) > 0 && ctx.args[0].op != "ctxc"
}

// instance: the context ends with the agreement.
func (w *waits) instance(ctx *Term) bool {
	if !strings.HasPrefix(w.r.name, "party.MainProcess") {
		return ctx.op == "sym"
	}
	return ctx.op == "ctxc"
}

// quits: what one peer can send alone, at the start or again, does not end the taking of messages.
func (w *waits) quits() {
	r := w.r
	for _, e := range r.effects {
		if !mailboxRecv(e) || unsat(e.pc) || len(e.args) < 2 {
			continue
		}
		for _, q := range own(e) {
			li := r.loopOfSym(q.Sym)
			if li == nil || bounded(q) || !containsTerm(e.args[1], q.Sym) {
				continue
			}
			at := r.name + ": " + r.posStr(e.pos)
			x := bAnd(e.pc, bNot(li.again()))
			first := w.alone(li, x, e.args[1], false)
			if len(e.ctx.vars) > 0 && w.unseen(li, x, e.args[1]) {
				first = tFalse // one goroutine for each message
			}
			w.c.ob(unsat(first) || settled(first, e.args[1]), "wait.quit", at+": first", "one message ends the wait for those of the others: %s", brief(first))
			again := w.alone(li, x, e.args[1], true)
			w.c.ob(unsat(again) || settled(again, e.args[1]), "wait.quit", at+": repeated", "a repeated message ends the wait for those of the others: %s", brief(again))
		}
	}
}

// alone: x when the loop has the state it starts with, or knows the sender already.
func (w *waits) alone(li *loopInfo, x, m *Term, known bool) *Term {
	sender := mkFld(m, "Sender")
	at := map[*Term]*Term{}
	for _, a := range atomsOf(x) {
		inner := false
		for _, u := range mus(a) {
			inner = inner || u.sym == li.id
		}
		switch {
		case inner && known && isFlag(a) && containsTerm(a, sender):
			at[a] = tTrue
		case inner && isFlag(a):
			at[a] = asBool(w.r.counterInit(li, a))
		case inner:
			v := map[*Term]*Term{}
			for _, u := range stateTerms(a) {
				if headMu(u).sym == li.id {
					if v[u] = w.r.counterInit(li, u); isAbsent(v[u]) && (a.op == "ge0" || a.op == "eq0") {
						v[u] = mkInt(0)
					}
				}
			}
			at[a] = simp2(subst(a, v), tTrue)
		}
	}
	y := simp2(subst(x, at), tTrue)
	for _, a := range atomsOf(y) {
		shared := false // what another goroutine may have found
		walk(a, func(z *Term) { shared = shared || z.op == "shared" || z.op == "bshared" })
		if shared {
			y = bAnd(subst(y, map[*Term]*Term{a: tTrue}), subst(y, map[*Term]*Term{a: tFalse}))
		}
	}
	return simp2(y, tTrue)
}

// stateTerms are the parts of a that read the state of a loop.
func stateTerms(t *Term) []*Term {
	if (t.op == "mu" || t.op == "len" || t.op == "sel" || t.op == "fld") && headMu(t).op == "mu" {
		return []*Term{t}
	}
	var out []*Term
	for _, a := range t.args {
		out = append(out, stateTerms(a)...)
	}
	return out
}

func isFlag(a *Term) bool { return a.op != "ge0" && a.op != "eq0" && a.op != "eq" }

// unseen: x happens only for a sender seen for the first time.
func (w *waits) unseen(li *loopInfo, x, m *Term) bool {
	for _, a := range atomsOf(x) {
		if isFlag(a) && containsTerm(a, mkFld(m, "Sender")) && len(mus(a)) > 0 && implies(x, bNot(a)) {
			return true
		}
	}
	return false
}

// settled: x says that the message is the one waited for: its proof holds, or it is from the one
// member asked.
func settled(x, m *Term) bool {
	for _, a := range atomsOf(x) {
		if !containsTerm(a, m) || !implies(x, a) {
			continue
		}
		if a.op == "check" {
			return true
		}
		if a.op == "eq" {
			for i := 0; i < 2; i++ {
				o := a.args[1-i]
				if a.args[i] == tNil && hasSuffix(o.op, "err") || a.args[i] == mkFld(m, "Sender") && !fromOutside(o) {
					return true
				}
			}
		}
		if a.op == "eq0" && !containsTerm(subst(a, map[*Term]*Term{mkFld(m, "Sender"): mkInt(0)}), m) && containsTerm(a, mkFld(m, "Sender")) {
			return true
		}
	}
	return false
}

// members: what takes one message, or waits for one thing, per member is there for all N of them.
func (w *waits) members() {
	r := w.r
	for _, e := range r.effects {
		if unsat(e.pc) || len(e.args) == 0 || len(e.loops) == 0 {
			continue
		}
		keyed := func(t *Term) bool {
			for _, q := range e.loops {
				if containsTerm(t, q.Sym) {
					return true
				}
			}
			return false
		}
		switch {
		case e.kind == "Call" && hasSuffix(e.name, "RBCReceive") && keyed(mkList(e.args...)):
		case mailboxRecv(e):
		case e.kind == "recv" && internalChan(e.args[0]) && len(e.ctx.vars) > 0 && keyed(e.args[0]) && !fromOutside(e.args[0]):
		default:
			continue
		}
		n := mkInt(1)
		for _, q := range e.loops {
			if !bounded(q) {
				n = nil
				break
			}
			n = mul2(n, q.N)
		}
		if n == nil || n.isInt(1) {
			continue
		}
		w.c.ob(implies(tTrue, ge0(sub(n, tN))), "wait.members", r.name+": "+r.posStr(e.pos), "there are %s of these for %s members", brief(n), brief(tN))
	}
}

// made: no channel that is used may be nil.
func (w *waits) made() {
	r := w.r
	for _, e := range r.effects {
		if e.kind != "recv" && e.kind != "send" && e.kind != "close" || len(e.args) == 0 || unsat(e.pc) {
			continue
		}
		for _, l := range condLeaves(e.args[0], e.pc) {
			w.c.ob(l[1] != tNil || unsat(l[0]), "wait.nil", r.name+": "+r.posStr(e.pos), "the channel was not made when %s", brief(l[0]))
		}
	}
}

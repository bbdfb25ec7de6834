package main

import "strings"

// totalReturn: the function returns on every path (no path blocks forever or kills the process).
func (c *Ck) totalReturn(r *Run) {
	n := 0
	for _, e := range r.effects {
		if e.kind == "return" {
			n++
			c.ob(sameTerm(e.pc, tTrue, tTrue), "returns", r.name, "returns only if %s", short(e.pc))
		}
		if e.kind == "fatal" {
			c.ob(unsat(e.pc), "returns", r.name+" "+e.name, "%s at %s is reachable when %s", e.name, r.where(e), short(e.pc))
		}
	}
	c.ob(n > 0, "returns", r.name, "no return found")
}

// noOtherState: persistent state outside the listed locations is not written.
func (c *Ck) noOtherState(r *Run, rule string, roots ...string) {
	for _, e := range r.mem.jent {
		if e.val == nil || e.root.op == "alloc" || unsat(e.guard) {
			continue
		}
		n := e.root.String()
		ok := false
		for _, w := range roots {
			if n == w {
				ok = true
			}
		}
		if n == "P" && len(e.path) > 0 {
			ok = ok && (isTimeField(e.path[0].sym) || contains(roots, "P."+e.path[0].sym))
		}
		c.ob(ok, rule, n+pathStr(e.path), "%s writes %s%s", r.name, n, pathStr(e.path))
	}
}

func isTimeField(f string) bool {
	return strings.HasPrefix(f, "VSS") || strings.Contains(f, "Start") || strings.Contains(f, "End")
}

func pathStr(p []*Term) string {
	s := ""
	for _, x := range p {
		if x.op == "F" {
			s += "." + x.sym
		} else {
			s += "[*]"
		}
	}
	return s
}

// randFresh: t is a fresh random field element, a different one for every valuation of vars.
func (c *Ck) randFresh(t *Term, rule, site, what string, vars ...*Term) bool {
	ok := t != nil && t.op == "rand"
	if ok {
		for _, v := range vars {
			hit := false
			for _, a := range t.args {
				if k := coefOf(a, v); k == 1 || k == -1 {
					rest := linComb2(a, 1, v, -k)
					if rest.op == "int" || !rest.has(vars) {
						hit = true
					}
				}
			}
			ok = ok && hit
		}
	}
	return c.ob(ok, rule, site, "%s: found %s, want a fresh uniformly random field element for each index", what, short(t))
}

func (t *Term) has(vs []*Term) bool {
	for _, v := range vs {
		if containsTerm(t, v) {
			return true
		}
	}
	return false
}

// randSite identifies the source of a random value (its call site).
func randSite(t *Term) string { return t.sym }

// arg0 of a term with operator op, or nil.
func un(t *Term, op string) *Term {
	if t != nil && t.op == op && len(t.args) > 0 {
		return t.args[0]
	}
	return nil
}

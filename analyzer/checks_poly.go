package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() { checks["P27"] = checkPoly }

// same discharges the obligation that a derived closed form is the specified function: the terms
// are equal under the given condition, or they are the same function for every size listed. Where
// the loops have no closed form that can be compared, the analysis is repeated with these sizes
// fixed. What cannot be compared then either fails, unless it is the result of a loop: then it is
// reported as not decided.
func (c *Ck) same(r *Run, get func(*Run) *Term, want, given *Term, kind string, sizes []map[*Term]int64, rule, site, what string) bool {
	got := get(r)
	if got == nil {
		return c.ob(false, rule, site, "%s: no value found", what)
	}
	if sameTerm(got, want, given) {
		return c.ob(true, rule, site, "")
	}
	g := simp2(got, given)
	for _, s := range sizes {
		lens, ints := map[*Term]int64{}, map[*Term]int64{}
		for t, v := range s {
			if t.op == "sym" && isIntSym[t] {
				ints[t] = v
			} else {
				lens[t] = v
			}
		}
		ok, why := sameFunction(g, want, given, kind, lens, ints)
		if why != "" && !strings.HasPrefix(why, "specification") {
			if g2 := c.sized(r, get, lens, ints); g2 != nil {
				c.extra["decided with sizes fixed"]++
				ok, why = sameFunction(g2, want, given, kind, lens, ints)
				if !ok && why == "" {
					g = simp2(g2, given)
				}
			}
		}
		if why != "" {
			if len(mus(g)) > 0 && !strings.HasPrefix(why, "specification") {
				c.extra["not decided"]++
				c.samples = append(c.samples, "not decided: "+site+": "+what+" ("+why+")")
				return true
			}
			return c.ob(false, rule, site, "%s: found %s, want %s (not comparable: %s)", what, short(g), short(want), why)
		}
		if !ok {
			return c.ob(false, rule, site, "%s: found %s, want %s", what, short(g), short(want))
		}
	}
	return c.ob(true, rule, site, "")
}

// sized repeats the analysis of a function with the lengths of its lists fixed.
func (c *Ck) sized(r *Run, get func(*Run) *Term, lens, ints map[*Term]int64) (out *Term) {
	// what is remembered about terms only holds for these sizes
	defer func(a, b map[*Term]*Term, e, f map[[2]int]*Term, g map[*Term][2]*Term, h map[*Term]bool, i map[string]bool) {
		stdIdxMemo, knownMu, fixedLen, instMemo, simpMemo, rng, nonneg, knownLoop = a, b, map[*Term]int64{}, e, f, g, h, i
	}(stdIdxMemo, knownMu, instMemo, simpMemo, rng, nonneg, knownLoop)
	stdIdxMemo, knownMu, instMemo, simpMemo = map[*Term]*Term{}, copyMap(knownMu), map[[2]int]*Term{}, map[[2]int]*Term{}
	rng, nonneg, knownLoop = copyMap(rng), copyMap(nonneg), copyMap(knownLoop)
	defer func() {
		if recover() != nil {
			out = nil
		}
	}()
	var key []string
	for t, v := range lens {
		fixedLen[t] = v
		key = append(key, fmt.Sprint(t, "=", v))
	}
	args := map[string]*Term{}
	for t, v := range ints {
		if strings.HasPrefix(t.sym, "arg") {
			args[t.sym] = mkInt(v)
			key = append(key, fmt.Sprint(t, "=", v))
		}
	}
	sort.Strings(key)
	k := r.name + r.tag + c.suffix + strings.Join(key, ",")
	if c.fixed == nil {
		c.fixed = map[string]*Run{}
	}
	r2 := c.fixed[k]
	if r2 == nil {
		it := c.prog.analyseOpt(r.name, func(it *Interp) {
			if r.opt != nil {
				r.opt(it)
			}
			it.unroll, it.fixArgs = 40, args
		})
		r2 = &Run{Interp: it, ck: c, name: r.name, env: Env{}, opt: r.opt}
		c.fixed[k] = r2
	}
	return simp2(get(r2), tTrue)
}

var isIntSym = map[*Term]bool{}

func intSym(n string) *Term {
	t := mkSym(n)
	isIntSym[t] = true
	return t
}

// fatals is the condition under which the function stops the process itself.
func (r *Run) fatals() *Term {
	g := tFalse
	for _, e := range r.effects {
		if e.kind == "fatal" {
			g = bOr(g, e.pc)
			for i := len(e.loops) - 1; i >= 0; i-- {
				q := e.loops[i]
				x := freshSym("x")
				rng[x] = [2]*Term{mkInt(0), addc(q.N, -1)}
				g = mkExists(q.N, x, subst1(g, q.Sym, x))
			}
		}
	}
	return g
}

// resultOf reads what a function returned through a pointer.
func (r *Run) resultOf(i int) *Term {
	v := r.retVal(i)
	t := r.prog.names[r.name].fn.Type().(*types.Signature).Results().At(i).Type()
	if p, ok := t.Underlying().(*types.Pointer); ok && v != nil {
		return r.read(v, p.Elem())
	}
	return v
}

func (c *Ck) fr() types.Type {
	return c.run("bls.EvalPolyAtUnoptimized").typeNamed("internal/bls", "Fr")
}

func checkPoly(c *Ck) {
	c.evaluation("poly.eval")
	c.lincombs("poly.lincomb")
	c.commitments("kzg")
	c.lagrangeCoefficients("lagrange.coefficients")
	c.interpolation("lagrange.interpolate")
	c.setup("kzg.setup")
}

// evaluation: the value of the polynomial with these coefficients.
func (c *Ck) evaluation(rule string) {
	a1, a2 := mkSym("arg1"), mkSym("arg2")
	for _, b := range backends {
		if b.tag == "bignum_hbls" {
			continue // a library call
		}
		c.on(b.tag, func() {
			for _, fn := range []string{"bls.EvalPolyAt", "bls.EvalPolyAtUnoptimized"} {
				for _, f := range []map[int]int{nil, {2: 0}} {
					tag, how := "", ""
					x := a2
					if f != nil {
						tag, how, x = "same", " when the result is stored over the point", mkSym("arg0")
					}
					f := f
					r := c.runOpt(fn, tag, func(it *Interp) { it.sameArg = f; inlining("bls.EvalPolyAtUnoptimized")(it) })
					given := bAnd(bNot(mkEq(tNil, mkSym("arg0"))), bNot(mkEq(tNil, a2)))
					get := func(r *Run) *Term { return r.mem.readAt(mkSym("arg0"), nil, r.typeNamed("internal/bls", "Fr"), given) }
					var sizes []map[*Term]int64
					for n := int64(0); n <= 4; n++ {
						sizes = append(sizes, map[*Term]int64{a1: n})
					}
					want := mkIte(ge0(addc(mkLen(a1), -1)), mk("eval", "", a1, x), tFr0)
					// at zero
					zero, other := bAnd(given, mkEq(x, tFr0)), bAnd(given, bNot(mkEq(x, tFr0)))
					c.same(r, func(r *Run) *Term { return subst1(simp2(get(r), zero), x, tFr0) }, mkIte(ge0(addc(mkLen(a1), -1)), mkSel(a1, mkInt(0)), tFr0), tTrue, "fr", sizes, rule, fn+c.suffix, "value at zero"+how)
					c.same(r, func(r *Run) *Term { return simp2(get(r), other) }, want, tTrue, "fr", sizes, rule, fn+c.suffix, "value"+how)
					c.ob(unsat(r.fatals()), rule, fn+c.suffix, "may stop the process")
					c.onlyWrites(r, rule, fn+c.suffix, "arg0")
				}
			}
		})
	}
}

// onlyWrites: of what exists before the call, only these objects are written.
func (c *Ck) onlyWrites(r *Run, rule, site string, roots ...string) {
	for _, e := range r.mem.jent {
		if e.val == nil || e.root.op != "sym" || unsat(e.guard) {
			continue
		}
		ok := false
		for _, n := range roots {
			ok = ok || e.root.sym == n
		}
		if !ok && (strings.HasPrefix(e.root.sym, "arg") || strings.HasPrefix(e.root.sym, "g:") || e.root.sym == "recv" || e.root == tP) {
			c.ob(false, rule+".frame", site, "writes %s", e.root)
		}
	}
	c.ob(true, rule+".frame", site, "")
}

func (c *Ck) lincombs(rule string) {
	a0, a1 := mkSym("arg0"), mkSym("arg1")
	var sizes []map[*Term]int64
	for n := int64(0); n <= 3; n++ {
		sizes = append(sizes, map[*Term]int64{a0: n, a1: n})
	}
	for _, b := range backends {
		c.on(b.tag, func() {
			r := c.run("bls.LinCombFr")
			site := r.name + c.suffix
			eqLen := mkEq(mkLen(a0), mkLen(a1))
			k := idx("i", mkInt(0), mkLen(a0))
			want := closeBinder("sumfr", "", mkLen(a0), []*Term{k}, []*Term{mk("mulfr", "", mkSel(a0, k), mkSel(a1, k))})
			c.same(r, ret0, want, eqLen, "fr", sizes, rule, site, "result")
			c.imp(bNot(eqLen), r.fatals(), rule, site, "lists of different lengths are refused")
			c.ob(unsat(bAnd(eqLen, r.fatals())), rule, site, "may stop the process")
			c.onlyWrites(r, rule, site)
		})
	}
}

func (c *Ck) commitments(rule string) {
	s1 := mk("fld", "SecretG1", mkSym("recv"))
	s2 := mk("fld", "SecretG2", mkSym("recv"))
	a := func(i int) *Term { return mkSym([]string{"arg0", "arg1", "arg2", "arg3"}[i]) }
	sizes := func(lo, hi int64) (out []map[*Term]int64) {
		for n := lo; n <= hi; n++ {
			out = append(out, map[*Term]int64{a(0): n, s1: n + 1, s2: n + 1})
		}
		return
	}
	want := mk("lincomb", "", mkSub(s1, mkInt(0), mkLen(a(0))), a(0))
	for _, fn := range []string{"CommitToPoly", "CommitToPolyUnoptimized"} {
		r := c.run("polycommit.KZGSettings." + fn)
		c.same(r, res0, want, tTrue, "group", sizes(0, 4), rule+".commit", r.name, "result")
		c.ob(unsat(r.fatals()), rule+".commit", r.name, "may stop the process")
		c.onlyWrites(r, rule+".commit", r.name)
	}
	{
		r := c.run("polycommit.CommitToEvalPoly")
		c.same(r, res0, mk("lincomb", "", a(0), a(1)), tTrue, "group", []map[*Term]int64{{a(0): 2, a(1): 2}}, rule+".commit", r.name, "result")
	}
	// quotient of (f(X) - f(x)) by (X - x): coefficient j is the value at x of the coefficients above j
	{
		r := c.runOpt("polycommit.KZGSettings.ComputeProofSingle", "", inlining("polycommit.KZGSettings.CommitToPoly", "polycommit.KZGSettings.CommitToPolyUnoptimized"))
		given := ge0(addc(mkLen(a(0)), -1))
		m := addc(mkLen(a(0)), -1)
		j := idx("j", mkInt(0), m)
		q := closeBinder("seq", "", m, []*Term{j}, []*Term{mk("eval", "", mkSub(a(0), addc(j, 1), sub(m, j)), a(1))})
		w := mk("lincomb", "", mkSub(s1, mkInt(0), m), q)
		c.same(r, func(r *Run) *Term { return simp2(r.resultOf(0), given) }, w, given, "group", sizes(1, 5), rule+".proof", r.name, "result")
		c.onlyWrites(r, rule+".proof", r.name)
	}
	{
		r := c.run("polycommit.KZGSettings.CheckProofSingle")
		g2 := mkSym("g:bls.GenG2")
		w := raw("check", "pairing", 0, []*Term{
			mk("addg1", "", a(0), mk("negg1", "", mk("mulg1", "", tGen, a(3)))), g2,
			a(1), mk("subg2", "", mkSel(s2, mkInt(1)), mk("mulg2", "", g2, a(2)))}, nil)
		c.same(r, ret0, mkAtom(w), tTrue, "pairing", sizes(2, 3), rule+".check", r.name, "result")
		c.onlyWrites(r, rule+".check", r.name)
	}
}

func (c *Ck) lagrangeCoefficients(rule string) {
	r := c.run("party.GetLagrangeCoefficients")
	a0, a1, a2, a3 := intSym("arg0"), mkSym("arg1"), mkSym("arg2"), mkSym("arg3")
	n := addc(a0, 1)
	given := mkEq(mkLen(a1), n)
	i := idx("i", mkInt(0), n)
	j := idx("j", mkInt(0), n)
	d := func(x, y *Term) *Term { return mk("addfr", "", x, mk("negfr", "", y)) }
	w := closeBinder("prodfr", "", n, []*Term{j}, []*Term{mkIte(mkEq(i, j), tFr1,
		mk("mulfr", "", d(a2, mkSel(a1, j)), mk("invfr", "", d(mkSel(a1, i), mkSel(a1, j)))))})
	get := func(r *Run) *Term { return r.mem.readAt(a3, []*Term{i}, r.typeNamed("internal/bls", "Fr"), given) }
	var sizes []map[*Term]int64
	for m := int64(0); m < 4; m++ {
		for x := int64(0); x <= m; x++ {
			isIntSym[i] = true
			sizes = append(sizes, map[*Term]int64{a0: m, a1: m + 1, a3: m + 1, i: x})
		}
	}
	c.same(r, get, w, given, "fr", sizes, rule, r.name, "coefficient i")
	c.ob(unsat(bAnd(given, r.fatals())), rule, r.name, "may stop the process")
	c.imp(bNot(given), r.fatals(), rule, r.name, "a list of another length is refused")
	c.onlyWrites(r, rule, r.name, "arg3")
}

// interpolation: the coefficients of the polynomial through the points.
func (c *Ck) interpolation(rule string) {
	r := c.run("polyring.LagrangeInterpolate")
	a0, a1, a2 := intSym("arg0"), mkSym("arg1"), mkSym("arg2")
	n := addc(a0, 1)
	given := ge0(a0)
	v := r.retVal(0)
	if !c.ob(v != nil, rule, r.name, "no result") {
		return
	}
	k := idx("k", mkInt(0), n)
	get := func(r *Run) *Term { return r.elemOf(r.retVal(0), k, r.typeNamed("internal/bls", "Fr")) }
	w := mkSel(interpT(a0, a1, a2), k)
	isIntSym[k] = true
	var sizes []map[*Term]int64
	for m := int64(0); m < 5; m++ {
		for x := int64(0); x <= m; x++ {
			sizes = append(sizes, map[*Term]int64{a0: m, a1: m + 1, a2: m + 1, k: x})
		}
	}
	c.eq(mkLen(v), n, given, rule, r.name, "number of coefficients")
	c.same(r, get, w, bAnd(given, bNot(r.fatals())), "fr", sizes, rule, r.name, "coefficient k")
	// only for repeated points there is no answer
	for _, s := range sizes {
		if s[k] > 0 {
			continue
		}
		lens := map[*Term]int64{a1: s[a1], a2: s[a2]}
		ints := map[*Term]int64{a0: s[a0]}
		distinct := tTrue
		for x := int64(0); x < s[a1]; x++ {
			for y := int64(0); y < x; y++ {
				distinct = bAnd(distinct, bNot(mkEq(mkSel(a1, mkInt(x)), mkSel(a1, mkInt(y)))))
			}
		}
		ok, why := sameFunction(r.fatals(), tFalse, distinct, "bool", lens, ints)
		if why != "" {
			if f := c.sized(r, (*Run).fatals, lens, ints); f != nil {
				ok, why = sameFunction(f, tFalse, distinct, "bool", lens, ints)
			}
		}
		if why != "" {
			c.extra["not decided"]++
			continue
		}
		c.ob(ok, rule, r.name, "stops the process for distinct points")
	}
	c.onlyWrites(r, rule, r.name)
}

// setup: powers of one secret in both groups, and the settings hold them.
func (c *Ck) setup(rule string) {
	r := c.run("polycommit.GenerateTestingSetup")
	a0, a1 := mkSym("arg0"), intSym("arg1")
	k := idx("k", mkInt(0), a1)
	isIntSym[k] = true
	s := mk("setfr", "", a0)
	j := idx("j", mkInt(0), k)
	pow := closeBinder("prodfr", "", k, []*Term{j}, []*Term{s})
	var sizes []map[*Term]int64
	for x := int64(0); x < 4; x++ {
		sizes = append(sizes, map[*Term]int64{a1: 4, k: x})
	}
	for i, w := range []struct {
		typ  string
		want *Term
	}{{"G1Point", mk("mulg1", "", tGen, pow)}, {"G2Point", mk("mulg2", "", mkSym("g:bls.GenG2"), pow)}} {
		v := r.retVal(i)
		if !c.ob(v != nil, rule, r.name, "no result") {
			continue
		}
		c.eq(mkLen(v), a1, ge0(a1), rule, r.name, "number of powers")
		c.same(r, func(r *Run) *Term { return r.elemOf(r.retVal(i), k, r.typeNamed("internal/bls", w.typ)) }, w.want, tTrue, "group", sizes, rule, r.name, "power k in "+w.typ)
	}
	c.onlyWrites(r, rule, r.name)

	q := c.run("polycommit.NewKZGSettings")
	p := q.resultOf(0)
	given := mkEq(mkLen(mkSym("arg1")), mkLen(mkSym("arg2")))
	for i, f := range []string{"FFTSettings", "SecretG1", "SecretG2"} {
		got := mkFld(p, f)
		a := mkSym([]string{"arg0", "arg1", "arg2"}[i])
		c.ob(sameTerm(got, a, given), rule, q.name, "%s is %s, want the parameter", f, short(got))
	}
	c.imp(bNot(given), q.fatals(), rule, q.name, "lists of different lengths are refused")
}

func ret0(r *Run) *Term { return r.retVal(0) }
func res0(r *Run) *Term { return r.resultOf(0) }

func copyMap[K comparable, V any](m map[K]V) map[K]V {
	n := map[K]V{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed value of the gated value-flow graph. Guards (booleans) and gated
// values are multi-terminal decision diagrams: op "ite" with args [atom, hi, lo].
type Term struct {
	id    int
	op    string
	sym   string
	iv    int64
	args  []*Term
	coefs []int64 // op "lin": iv + sum coefs[i]*args[i]
	bmax  int     // largest bound-variable index occurring in the term
	hsym  bool    // contains a free symbol
	size  int
}

var (
	terms   = map[string]*Term{}
	termSeq = 0
)

func key(op, sym string, iv int64, args []*Term, coefs []int64) string {
	b := make([]byte, 0, 24+len(sym)+8*len(args))
	b = append(b, op...)
	b = append(b, 1)
	b = append(b, sym...)
	b = append(b, 1)
	b = strconv.AppendInt(b, iv, 36)
	for i, a := range args {
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(a.id), 36)
		if coefs != nil {
			b = append(b, '*')
			b = strconv.AppendInt(b, coefs[i], 36)
		}
	}
	return string(b)
}

// raw builds a term without any normalisation.
func raw(op, sym string, iv int64, args []*Term, coefs []int64) *Term {
	k := key(op, sym, iv, args, coefs)
	if t, ok := terms[k]; ok {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, op: op, sym: sym, iv: iv, args: args, coefs: coefs, size: 1}
	for _, a := range args {
		if a.bmax > t.bmax {
			t.bmax = a.bmax
		}
		t.hsym = t.hsym || a.hsym
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	if op == "bv" {
		t.bmax = int(iv)
	}
	if op == "sym" {
		t.hsym = true
	}
	terms[k] = t
	return t
}

var (
	tTrue  = raw("true", "", 0, nil, nil)
	tFalse = raw("false", "", 0, nil, nil)
	tNil   = raw("nil", "", 0, nil, nil)
	tFr0   = raw("fr", "0", 0, nil, nil)
	tFr1   = raw("fr", "1", 0, nil, nil)
	tG0    = raw("g1", "0", 0, nil, nil)
	tGen   = raw("g1", "gen", 0, nil, nil)
	tP     = raw("sym", "P", 0, nil, nil)
	tUnit  = raw("unit", "", 0, nil, nil)
)

func mkInt(v int64) *Term { return raw("int", "", v, nil, nil) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkStr(s string) *Term { return raw("str", s, 0, nil, nil) }
func mkSym(n string) *Term { return raw("sym", n, 0, nil, nil) }

func isConst(t *Term) bool { return t.op == "int" }
func (t *Term) isInt(v int64) bool {
	return t.op == "int" && t.iv == v
}

// ---------- ite / BDD ----------

type iteKey struct{ a, b, c int }

var iteMemo = map[iteKey]*Term{}

func topAtom(ts ...*Term) *Term {
	var best *Term
	for _, t := range ts {
		if t.op == "ite" {
			if best == nil || t.args[0].id < best.id {
				best = t.args[0]
			}
		} else if isAtom(t) {
			if best == nil || t.id < best.id {
				best = t
			}
		}
	}
	return best
}

func cof(t, atom *Term, v bool) *Term {
	if t == atom {
		return mkBool(v)
	}
	if t.op == "ite" && t.args[0] == atom {
		if v {
			return t.args[1]
		}
		return t.args[2]
	}
	return t
}

// isAtom tells whether a (non-ite) term is a boolean atom.
func isAtom(t *Term) bool {
	switch t.op {
	case "ge0", "eq0", "eq", "forall", "check", "batom", "choice", "has":
		return true
	case "bfld", "bmu", "bsel", "bshared":
		return true
	}
	return false
}

func node(atom, hi, lo *Term) *Term {
	if hi == lo {
		return hi
	}
	if hi == tTrue && lo == tFalse {
		return atom
	}
	// a failed decoding replaced by the identity
	if atom.op == "eq" {
		if e := atom.args[0]; e.op == "decerr" || atom.args[1].op == "decerr" {
			if e.op != "decerr" {
				e = atom.args[1]
			}
			if hi.op == "decpt" && hi.args[0] == e.args[0] && lo == tG0 {
				return mk("decG1", "", hi.args[0])
			}
		}
		// value of an absent map entry: has->v, absent->v[entry:=0]
	}
	if atom.op == "has" {
		// ite(has(m,k), f(val(m,k)), f(0)) is f(val(m,k)): an absent entry reads as zero
		v := atom.args[0]
		if subst1(hi, v, mkInt(0)) == lo || subst1(hi, v, tNil) == lo {
			return hi
		}
	}
	return raw("ite", "", 0, []*Term{atom, hi, lo}, nil)
}

// mkIte gates a and b by the boolean c.
func mkIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a == tTrue && b == tFalse {
		return c
	}
	k := iteKey{c.id, a.id, b.id}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	at := topAtom(c, a, b)
	if at == nil { // c is not a recognised boolean: treat as opaque atom
		r := raw("ite", "", 0, []*Term{mkAtom(c), a, b}, nil)
		iteMemo[k] = r
		return r
	}
	hi := mkIte(cof(c, at, true), cof(a, at, true), cof(b, at, true))
	lo := mkIte(cof(c, at, false), cof(a, at, false), cof(b, at, false))
	r := node(at, hi, lo)
	iteMemo[k] = r
	return r
}

func mkAtom(t *Term) *Term {
	if isAtom(t) {
		return t
	}
	return raw("batom", "", 0, []*Term{t}, nil)
}

// asBool makes a term usable as a guard.
func asBool(t *Term) *Term {
	switch {
	case t == tTrue, t == tFalse, isAtom(t):
		return t
	case t.op == "ite":
		return mkIte(t.args[0], asBool(t.args[1]), asBool(t.args[2]))
	case t.op == "int":
		return mkBool(t.iv != 0)
	}
	return mkAtom(t)
}

func bNot(a *Term) *Term    { return mkIte(a, tFalse, tTrue) }
func bAnd(a, b *Term) *Term { return mkIte(a, b, tFalse) }
func bOr(a, b *Term) *Term  { return mkIte(a, tTrue, b) }
func bAndN(ts ...*Term) *Term {
	r := tTrue
	for _, t := range ts {
		r = bAnd(r, t)
	}
	return r
}
func bImplies(a, b *Term) bool { return bAnd(a, bNot(b)) == tFalse }

// atomsOf lists the atoms of a decision diagram in order.
func atomsOf(t *Term) []*Term {
	seen := map[*Term]bool{}
	as := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "ite" {
			if !as[t.args[0]] {
				as[t.args[0]] = true
				out = append(out, t.args[0])
			}
			rec(t.args[1])
			rec(t.args[2])
		} else if isAtom(t) && !as[t] {
			as[t] = true
			out = append(out, t)
		}
	}
	rec(t)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// leavesOf lists the terminal values of a decision diagram.
func leavesOf(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "ite" {
			rec(t.args[1])
			rec(t.args[2])
			return
		}
		out = append(out, t)
	}
	rec(t)
	return out
}

// restrict fixes an atom.
func restrict(t, atom *Term, v bool) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == atom {
			return mkBool(v)
		}
		if t.op != "ite" {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.args[0] == atom {
			if v {
				r = rec(t.args[1])
			} else {
				r = rec(t.args[2])
			}
		} else {
			r = mkIte(t.args[0], rec(t.args[1]), rec(t.args[2]))
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

const maxLeaves = 64

// lift applies f over the leaves of gated operands.
func lift(ts []*Term, f func([]*Term) *Term) *Term {
	for i, t := range ts {
		if t.op == "ite" {
			hi := append([]*Term{}, ts...)
			lo := append([]*Term{}, ts...)
			at := t.args[0]
			for j := i; j < len(ts); j++ {
				if ts[j].op == "ite" {
					hi[j] = restrict(ts[j], at, true)
					lo[j] = restrict(ts[j], at, false)
				}
			}
			return mkIte(at, lift(hi, f), lift(lo, f))
		}
	}
	return f(ts)
}

// ---------- linear integer forms ----------

func linParts(t *Term) (int64, []*Term, []int64) {
	switch t.op {
	case "int":
		return t.iv, nil, nil
	case "lin":
		return t.iv, t.args, t.coefs
	}
	return 0, []*Term{t}, []int64{1}
}

func linBuild(c int64, m map[*Term]int64) *Term {
	var as []*Term
	for a, k := range m {
		if k != 0 {
			as = append(as, a)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 0 {
		return mkInt(c)
	}
	ks := make([]int64, len(as))
	for i, a := range as {
		ks[i] = m[a]
	}
	if len(as) == 1 && c == 0 && ks[0] == 1 {
		return as[0]
	}
	return raw("lin", "", c, as, ks)
}

func linComb2(a *Term, ka int64, b *Term, kb int64) *Term {
	if a.op == "ite" || b.op == "ite" {
		return lift([]*Term{a, b}, func(x []*Term) *Term { return linComb2(x[0], ka, x[1], kb) })
	}
	m := map[*Term]int64{}
	c0, as, ks := linParts(a)
	c := c0 * ka
	for i := range as {
		m[as[i]] += ks[i] * ka
	}
	c0, as, ks = linParts(b)
	c += c0 * kb
	for i := range as {
		m[as[i]] += ks[i] * kb
	}
	return linBuild(c, m)
}

func add(a, b *Term) *Term        { return linComb2(a, 1, b, 1) }
func sub(a, b *Term) *Term        { return linComb2(a, 1, b, -1) }
func addc(a *Term, c int64) *Term { return linComb2(a, 1, mkInt(c), 1) }
func mulc(a *Term, c int64) *Term { return linComb2(a, c, mkInt(0), 0) }

func mulInt(a, b *Term) *Term {
	if a.op == "ite" || b.op == "ite" {
		return lift([]*Term{a, b}, func(x []*Term) *Term { return mulInt(x[0], x[1]) })
	}
	if a.op == "int" {
		return mulc(b, a.iv)
	}
	if b.op == "int" {
		return mulc(a, b.iv)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return raw("mulint", "", 0, []*Term{a, b}, nil)
}

func coefOf(t, x *Term) int64 {
	_, as, ks := linParts(t)
	for i, a := range as {
		if a == x {
			return ks[i]
		}
	}
	return 0
}

// ---------- substitution ----------

func containsTerm(t, x *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if t.size < x.size || seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func subst1(t, from, to *Term) *Term {
	return subst(t, map[*Term]*Term{from: to})
}

var freshCtr = 0

func freshSym(prefix string) *Term {
	freshCtr++
	return mkSym(fmt.Sprintf("%s'%d", prefix, freshCtr))
}

func isBinder(op string) bool {
	switch op {
	case "seq", "forall", "sumint", "sumfr", "prodfr", "sumg1", "flat", "fold", "filter", "scatter", "first", "count":
		return true
	}
	return false
}

// subst replaces terms (usually symbols) by terms, renormalising on the way up.
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return substM(t, m, memo)
}

func substM(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	hit := false
	for f := range m {
		if f.op == "sym" && !t.hsym {
			continue
		}
		if containsTerm(t, f) {
			hit = true
			break
		}
	}
	var r *Term
	switch {
	case !hit:
		r = t
	case isBinder(t.op):
		xs, bodies := openBinder(t)
		nb := make([]*Term, len(bodies))
		for i, b := range bodies {
			nb[i] = substM(b, m, map[*Term]*Term{})
		}
		r = closeBinder(t.op, t.sym, substM(t.args[0], m, memo), xs, nb)
	default:
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = substM(a, m, memo)
		}
		r = rebuild(t, as)
	}
	memo[t] = r
	return r
}

// rebuild reapplies the constructor of t to new arguments.
func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "ite":
		return mkIte(asBool(as[0]), as[1], as[2])
	case "lin":
		r := mkInt(t.iv)
		for i, a := range as {
			r = linComb2(r, 1, a, t.coefs[i])
		}
		return r
	case "ge0":
		return ge0(as[0])
	case "eq0":
		return eq0(as[0])
	case "mulint":
		return mulInt(as[0], as[1])
	case "max0":
		if provGe0(as[0]) {
			return as[0]
		}
		n := raw("max0", "", 0, as, nil)
		nonneg[n] = true
		return n
	}
	return mkS(t.op, t.sym, t.iv, as)
}

// Binders bind one or two canonical variables (fold binds two). args[0] is the range
// length n (indices run over [0,n)); the remaining args are bodies.
func binderArity(op string) int {
	if op == "fold" {
		return 2
	}
	return 1
}

func openBinder(t *Term) (xs []*Term, bodies []*Term) {
	k := binderArity(t.op)
	m := map[*Term]*Term{}
	for i := 0; i < k; i++ {
		x := freshSym("o")
		xs = append(xs, x)
		m[raw("bv", "", t.iv+int64(i), nil, nil)] = x
	}
	rng[xs[0]] = [2]*Term{mkInt(0), addc(t.args[0], -1)}
	for _, b := range t.args[1:] {
		bodies = append(bodies, subst(b, m))
	}
	return
}

// instBinder instantiates a one-variable binder's bodies at idx.
func instBinder(t *Term, idx *Term) []*Term {
	m := map[*Term]*Term{raw("bv", "", t.iv, nil, nil): idx}
	var out []*Term
	for _, b := range t.args[1:] {
		out = append(out, subst(b, m))
	}
	return out
}

func closeBinder(op, sym string, n *Term, xs []*Term, bodies []*Term) *Term {
	d := 0
	for _, b := range bodies {
		if b.bmax > d {
			d = b.bmax
		}
	}
	d++
	m := map[*Term]*Term{}
	for i, x := range xs {
		m[x] = raw("bv", "", int64(d+i), nil, nil)
	}
	args := []*Term{n}
	used := false
	for _, b := range bodies {
		nb := subst(b, m)
		if nb != b {
			used = true
		}
		args = append(args, nb)
	}
	if !used {
		d = 1
	}
	t := raw(op, sym, int64(d), args, nil)
	if !used && len(xs) == 1 {
		// constant body
		if op == "forall" {
			return mkForallConst(n, bodies[0])
		}
	}
	return normBinder(t)
}

func mkForallConst(n, body *Term) *Term {
	return bOr(bNot(ge0(addc(n, -1))), body)
}

// ---------- printing ----------

func (t *Term) String() string { return show(t, 0) }

func show(t *Term, depth int) string {
	if depth > 40 {
		return "…"
	}
	d := depth + 1
	switch t.op {
	case "int":
		return fmt.Sprint(t.iv)
	case "sym":
		return t.sym
	case "str":
		return strconv.Quote(t.sym)
	case "true", "false", "nil":
		return t.op
	case "fr", "g1":
		return t.op + ":" + t.sym
	case "bv":
		return fmt.Sprintf("β%d", t.iv)
	case "lin":
		var sb strings.Builder
		for i, a := range t.args {
			k := t.coefs[i]
			if k == 1 {
				if i > 0 {
					sb.WriteString("+")
				}
			} else if k == -1 {
				sb.WriteString("-")
			} else {
				if i > 0 && k > 0 {
					sb.WriteString("+")
				}
				sb.WriteString(fmt.Sprint(k))
			}
			sb.WriteString(show(a, d))
		}
		if t.iv > 0 {
			sb.WriteString("+")
		}
		if t.iv != 0 {
			sb.WriteString(fmt.Sprint(t.iv))
		}
		return sb.String()
	case "ite":
		if t.args[1] == tFalse && t.args[2] == tTrue {
			return "!" + show(t.args[0], d)
		}
		return "ite(" + show(t.args[0], d) + " ? " + show(t.args[1], d) + " : " + show(t.args[2], d) + ")"
	case "fld", "bfld":
		return show(t.args[0], d) + "." + t.sym
	case "sel", "bsel":
		return show(t.args[0], d) + "[" + show(t.args[1], d) + "]"
	case "ge0":
		return show(t.args[0], d) + ">=0"
	case "eq0":
		return show(t.args[0], d) + "==0"
	case "eq":
		return show(t.args[0], d) + "==" + show(t.args[1], d)
	case "loc":
		s := "&" + show(t.args[0], d)
		for _, a := range t.args[1:] {
			if a.op == "F" {
				s += "." + a.sym
			} else {
				s += "[" + show(a, d) + "]"
			}
		}
		return s
	case "alloc":
		s := "new<" + t.sym[strings.LastIndex(t.sym, "/")+1:]
		for _, a := range t.args {
			s += ";" + show(a, d)
		}
		return s + ">"
	}
	var as []string
	for _, a := range t.args {
		as = append(as, show(a, d))
	}
	n := t.op
	if t.sym != "" {
		n += ":" + t.sym
	}
	if isBinder(t.op) {
		n += fmt.Sprintf("[β%d]", t.iv)
	}
	return n + "(" + strings.Join(as, ", ") + ")"
}

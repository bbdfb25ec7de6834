package main

import (
	"fmt"
	"hash/fnv"
	"math/big"
	"strings"
)

// Identity of two derived terms. The two closed forms are compared as functions: operands become
// random field elements and lists of given lengths, and an operation without a known meaning a
// random function of its operands' values. Equal functions always compare equal; different ones
// (rational functions of degree far below the field's order) practically never do.
type pit struct {
	seed int64
	lens map[*Term]int64 // lengths of the operand lists
	ints map[*Term]int64
	bv   map[int64]int64
	bad  string
	cost int
	over map[string]*big.Int // values chosen for some unknown objects
	keys map[string]bool     // unknown objects seen
	eqs  []eqSeen            // equations between elements the value depends on
	div0 bool
}

type eqSeen struct {
	l, r *Term
	bv   map[int64]int64
	val  bool
}

var frOrder, _ = new(big.Int).SetString("52435875175126190479447740508185965837690552500527637822603658699938581184513", 10)

func (p *pit) fail(f string, a ...interface{}) {
	if p.bad == "" {
		p.bad = fmt.Sprintf(f, a...)
	}
}

// random is the value an unknown object stands for.
func (p *pit) random(key string) *big.Int {
	if p.keys != nil {
		p.keys[key] = true
	}
	if v := p.over[key]; v != nil {
		return new(big.Int).Set(v)
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s", p.seed, key)
	x := new(big.Int).SetUint64(h.Sum64())
	fmt.Fprint(h, "'")
	x.Lsh(x, 64).Add(x, new(big.Int).SetUint64(h.Sum64()))
	x.Mul(x, x).Mul(x, x)
	return x.Mod(x, frOrder)
}

// key identifies an unknown operation with the values of its operands.
func (p *pit) key(t *Term) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s:%s:%d", t.op, t.sym, t.iv)
	if isBinder(t.op) {
		p.fail("%s", t.op)
		return b.String()
	}
	for _, a := range t.args {
		b.WriteString("(" + p.any(a) + ")")
	}
	return b.String()
}

func (p *pit) any(t *Term) string {
	switch {
	case isIntTerm(t) || t.op == "bv" || t.op == "len" || t.op == "max0":
		return fmt.Sprint(p.int(t))
	case t == tTrue, t == tFalse, isAtom(t):
		return fmt.Sprint(p.boolean(t))
	case t.op == "ite":
		if p.boolean(t.args[0]) {
			return p.any(t.args[1])
		}
		return p.any(t.args[2])
	case p.isFr(t):
		return p.fr(t).String()
	case p.isGroup(t):
		return p.group(t).String()
	case t.op == "str", t.op == "nil":
		return t.op + t.sym
	case t.op == "sel":
		return p.elem(t.args[0], p.int(t.args[1]), p.fr).String()
	case t.op == "sym", t.op == "fld":
		return p.unknown(t).String()
	}
	return p.key(t)
}

func (p *pit) isFr(t *Term) bool {
	switch t.op {
	case "fr", "asfr", "addfr", "mulfr", "negfr", "invfr", "expfr", "eval", "sumfr", "prodfr", "setfr":
		return true
	}
	return false
}

func (p *pit) isGroup(t *Term) bool {
	switch t.op {
	case "g1", "addg1", "negg1", "mulg1", "lincomb", "sumg1", "addg2", "subg2", "negg2", "mulg2":
		return true
	}
	return t.op == "sym" && (strings.HasPrefix(t.sym, "g2:") || t.sym == "g:bls.GenG2")
}

func (p *pit) int(t *Term) int64 {
	if p.cost++; p.cost > 2000000 {
		p.fail("too large")
		return 0
	}
	if v, ok := p.ints[t]; ok {
		return v
	}
	switch t.op {
	case "int":
		return t.iv
	case "lin":
		v := t.iv
		for i, a := range t.args {
			v += t.coefs[i] * p.int(a)
		}
		return v
	case "max0":
		if v := p.int(t.args[0]); v > 0 {
			return v
		}
		return 0
	case "mulint":
		return p.int(t.args[0]) * p.int(t.args[1])
	case "bv":
		v, ok := p.bv[t.iv]
		if !ok {
			p.fail("free index")
		}
		return v
	case "ite":
		if p.boolean(t.args[0]) {
			return p.int(t.args[1])
		}
		return p.int(t.args[2])
	case "len":
		return p.length(t.args[0])
	case "count":
		n := int64(0)
		p.each(t, func(b []*Term) {
			if p.boolean(b[0]) {
				n++
			}
		})
		return n
	case "sumint":
		n := int64(0)
		p.each(t, func(b []*Term) { n += p.int(b[0]) })
		return n
	case "first":
		r, done := p.int(t.args[0]), false
		i := int64(0)
		p.each(t, func(b []*Term) {
			if !done && p.boolean(b[0]) {
				r, done = i, true
			}
			i++
		})
		return r
	case "binop:<<", "binop:>>":
	}
	p.fail("number %s", short(t))
	return 0
}

// each runs over the values of a binder.
func (p *pit) each(t *Term, f func(bodies []*Term)) {
	n := p.int(t.args[0])
	if n > 200 {
		p.fail("too large")
		return
	}
	old, had := p.bv[t.iv]
	for i := int64(0); i < n && p.bad == ""; i++ {
		p.bv[t.iv] = i
		f(t.args[1:])
	}
	delete(p.bv, t.iv)
	if had {
		p.bv[t.iv] = old
	}
}

func (p *pit) boolean(t *Term) bool {
	switch t.op {
	case "true":
		return true
	case "false":
		return false
	case "ite":
		if p.boolean(t.args[0]) {
			return p.boolean(t.args[1])
		}
		return p.boolean(t.args[2])
	case "ge0":
		return p.int(t.args[0]) >= 0
	case "eq0":
		return p.int(t.args[0]) == 0
	case "eq":
		v := p.any(t.args[0]) == p.any(t.args[1])
		if l, r := t.args[0], t.args[1]; p.isFr(l) || p.isFr(r) || p.isGroup(l) || p.isGroup(r) || l.op == "sel" && r.op == "sel" {
			bv := map[int64]int64{}
			for k, v := range p.bv {
				bv[k] = v
			}
			p.eqs = append(p.eqs, eqSeen{l, r, bv, v})
		}
		return v
	case "forall":
		ok := true
		p.each(t, func(b []*Term) { ok = ok && p.boolean(b[0]) })
		return ok
	}
	p.fail("condition %s", short(t))
	return false
}

func (p *pit) length(t *Term) int64 {
	if v, ok := p.lens[t]; ok {
		return v
	}
	switch t.op {
	case "ite":
		if p.boolean(t.args[0]) {
			return p.length(t.args[1])
		}
		return p.length(t.args[2])
	}
	l := mkLen(t)
	if l.op == "len" && l.args[0] == t {
		p.fail("length of %s", short(t))
		return 0
	}
	return p.int(l)
}

// elem is element i of a list of field elements or of group elements.
func (p *pit) elem(t *Term, i int64, val func(*Term) *big.Int) *big.Int {
	if p.bad != "" {
		return new(big.Int)
	}
	switch t.op {
	case "ite":
		if p.boolean(t.args[0]) {
			return p.elem(t.args[1], i, val)
		}
		return p.elem(t.args[2], i, val)
	case "seq":
		if n := p.int(t.args[0]); i < 0 || i >= n {
			p.fail("index out of range")
			return new(big.Int)
		}
		old, had := p.bv[t.iv]
		p.bv[t.iv] = i
		v := val(t.args[1])
		delete(p.bv, t.iv)
		if had {
			p.bv[t.iv] = old
		}
		return v
	case "list":
		if i < 0 || i >= int64(len(t.args)) {
			p.fail("index out of range")
			return new(big.Int)
		}
		return val(t.args[i])
	case "cat":
		for _, a := range t.args {
			n := p.length(a)
			if i < n {
				return p.elem(a, i, val)
			}
			i -= n
		}
		p.fail("index out of range")
		return new(big.Int)
	case "sub":
		return p.elem(t.args[0], p.int(t.args[1])+i, val)
	case "polyroots":
		co := []*big.Int{big.NewInt(1)}
		n := p.length(t.args[0])
		for r := int64(0); r < n; r++ {
			co = mulLinear(co, p.elem(t.args[0], r, p.fr))
		}
		if i < 0 || i >= int64(len(co)) {
			p.fail("index out of range")
			return new(big.Int)
		}
		return co[i]
	case "interp":
		n := p.int(t.args[0]) + 1
		var xs, ys []*big.Int
		for r := int64(0); r < n; r++ {
			xs = append(xs, p.elem(t.args[1], r, p.fr))
			ys = append(ys, p.elem(t.args[2], r, p.fr))
		}
		co := p.interpolate(xs, ys)
		if i < 0 || i >= int64(len(co)) {
			p.fail("index out of range")
			return new(big.Int)
		}
		return co[i]
	case "slice", "mu", "res":
		p.fail("elements of %s", short(t))
		return new(big.Int)
	}
	if n, ok := p.lens[t]; ok && (i < 0 || i >= n) {
		p.fail("index out of range")
	}
	return p.random(fmt.Sprintf("%s[%d]", p.key(t), i))
}

// mulLinear multiplies by (X - r).
func mulLinear(co []*big.Int, r *big.Int) []*big.Int {
	out := make([]*big.Int, len(co)+1)
	for j := range out {
		out[j] = new(big.Int)
		if j > 0 {
			out[j].Add(out[j], co[j-1])
		}
		if j < len(co) {
			out[j].Sub(out[j], new(big.Int).Mul(co[j], r))
		}
		out[j].Mod(out[j], frOrder)
	}
	return out
}

func (p *pit) interpolate(xs, ys []*big.Int) []*big.Int {
	sum := make([]*big.Int, len(xs))
	for i := range sum {
		sum[i] = new(big.Int)
	}
	for i := range xs {
		co := []*big.Int{big.NewInt(1)}
		d := big.NewInt(1)
		for j := range xs {
			if j != i {
				co = mulLinear(co, xs[j])
				d.Mul(d, new(big.Int).Sub(xs[i], xs[j])).Mod(d, frOrder)
			}
		}
		d = p.inv(d)
		d.Mul(d, ys[i])
		for j := range co {
			sum[j].Add(sum[j], new(big.Int).Mul(co[j], d)).Mod(sum[j], frOrder)
		}
	}
	return sum
}

func (p *pit) inv(x *big.Int) *big.Int {
	if x.Sign() == 0 {
		p.div0 = true
		return new(big.Int)
	}
	return new(big.Int).ModInverse(x, frOrder)
}

func (p *pit) fr(t *Term) *big.Int {
	if p.cost++; p.cost > 2000000 {
		p.fail("too large")
	}
	r := new(big.Int)
	if p.bad != "" {
		return r
	}
	switch t.op {
	case "fr":
		r.SetString(t.sym, 10)
		return r
	case "asfr":
		return r.Mod(r.SetInt64(p.int(t.args[0])), frOrder)
	case "addfr":
		for _, a := range t.args {
			r.Add(r, p.fr(a))
		}
		return r.Mod(r, frOrder)
	case "mulfr":
		r.SetInt64(1)
		for _, a := range t.args {
			r.Mul(r, p.fr(a)).Mod(r, frOrder)
		}
		return r
	case "negfr":
		return r.Mod(r.Neg(p.fr(t.args[0])), frOrder)
	case "invfr":
		return p.inv(p.fr(t.args[0]))
	case "expfr":
		if t.args[1].op == "app" && strings.Contains(t.args[1].sym, "NewInt") && len(t.args[1].args) == 1 {
			return r.Exp(p.fr(t.args[0]), big.NewInt(p.int(t.args[1].args[0])), frOrder)
		}
	case "eval":
		x := p.fr(t.args[1])
		for i := p.length(t.args[0]) - 1; i >= 0; i-- {
			r.Mul(r, x).Add(r, p.elem(t.args[0], i, p.fr)).Mod(r, frOrder)
		}
		return r
	case "sumfr":
		p.each(t, func(b []*Term) { r.Add(r, p.fr(b[0])) })
		return r.Mod(r, frOrder)
	case "prodfr":
		r.SetInt64(1)
		p.each(t, func(b []*Term) { r.Mul(r, p.fr(b[0])).Mod(r, frOrder) })
		return r
	case "ite":
		if p.boolean(t.args[0]) {
			return p.fr(t.args[1])
		}
		return p.fr(t.args[2])
	case "sel":
		return p.elem(t.args[0], p.int(t.args[1]), p.fr)
	}
	return p.unknown(t)
}

func (p *pit) unknown(t *Term) *big.Int {
	switch t.op {
	case "sym", "fld", "setfr", "rand", "frrand":
		return p.random(p.key(t))
	}
	p.fail("value of %s", short(t))
	return new(big.Int)
}

// group is the discrete logarithm of a group element.
func (p *pit) group(t *Term) *big.Int {
	if p.cost++; p.cost > 2000000 {
		p.fail("too large")
	}
	r := new(big.Int)
	if p.bad != "" {
		return r
	}
	switch t.op {
	case "g1":
		if t.sym == "gen" {
			r.SetInt64(1)
		}
		return r
	case "addg1", "addg2":
		for _, a := range t.args {
			r.Add(r, p.group(a))
		}
		return r.Mod(r, frOrder)
	case "subg2":
		return r.Mod(r.Sub(p.group(t.args[0]), p.group(t.args[1])), frOrder)
	case "negg1", "negg2":
		return r.Mod(r.Neg(p.group(t.args[0])), frOrder)
	case "mulg1", "mulg2":
		return r.Mod(r.Mul(p.group(t.args[0]), p.fr(t.args[1])), frOrder)
	case "sumg1":
		p.each(t, func(b []*Term) { r.Add(r, p.group(b[0])) })
		return r.Mod(r, frOrder)
	case "lincomb":
		n := p.length(t.args[1])
		if m := p.length(t.args[0]); n != m {
			p.fail("lengths differ")
		}
		for i := int64(0); i < n; i++ {
			r.Add(r, new(big.Int).Mul(p.elem(t.args[0], i, p.group), p.elem(t.args[1], i, p.fr)))
		}
		return r.Mod(r, frOrder)
	case "ite":
		if p.boolean(t.args[0]) {
			return p.group(t.args[1])
		}
		return p.group(t.args[2])
	case "sel":
		return p.elem(t.args[0], p.int(t.args[1]), p.group)
	case "sym":
		switch t.sym {
		case "g2:gen", "g:bls.GenG2":
			return r.SetInt64(1)
		case "g2:0":
			return r
		}
	}
	return p.unknown(t)
}

// pairing is the exponent of the product of pairings that a check compares with one.
func (p *pit) pairing(t *Term) *big.Int {
	r := new(big.Int)
	if t.op == "check" && t.sym == "pairing" {
		r.Mul(p.group(t.args[0]), p.group(t.args[1]))
		r.Sub(r, new(big.Int).Mul(p.group(t.args[2]), p.group(t.args[3])))
		return r.Mod(r, frOrder)
	}
	if t.op == "check" && t.sym == "pairs" && t.args[0].op == "pairs" {
		for _, q := range t.args[0].args {
			if q.op != "pair" {
				p.fail("pairing %s", short(q))
				return r
			}
			r.Add(r, new(big.Int).Mul(p.group(q.args[0]), p.group(q.args[1])))
		}
		return r.Mod(r, frOrder)
	}
	p.fail("no pairing check: %s", short(t))
	return r
}

// sameFunction compares two terms for the given list lengths, where given holds; unknown says why
// they cannot be compared. Besides random operands it takes operands at which the equations the
// found term distinguishes hold.
var dbgSame func(...interface{})

func sameFunction(got, want, given *Term, kind string, lens map[*Term]int64, ints map[*Term]int64) (same bool, unknown string) {
	ratio := (*big.Int)(nil)
	var seen []eqSeen
	// compare at one choice of operands
	try := func(seed int64, over map[string]*big.Int) (bool, string) {
		ev := func(t *Term, kind string) (*big.Int, *pit) {
			p := &pit{seed: seed, lens: lens, ints: ints, bv: map[int64]int64{}, over: over}
			var v *big.Int
			switch kind {
			case "fr":
				v = p.fr(t)
			case "group":
				v = p.group(t)
			case "pairing":
				v = p.pairing(t)
			case "bool":
				v = big.NewInt(0)
				if p.boolean(t) {
					v.SetInt64(1)
				}
			case "int":
				v = big.NewInt(p.int(t))
			}
			return v, p
		}
		seen = nil
		if given != nil && given != tTrue {
			if v, p := ev(given, "bool"); p.bad == "" && v.Sign() == 0 {
				return true, ""
			}
		}
		w, p := ev(want, kind)
		if p.bad != "" {
			return false, "specification: " + p.bad
		}
		if p.div0 && over != nil {
			return true, "" // nothing is specified here
		}
		g, p := ev(got, kind)
		if p.bad != "" {
			return false, p.bad
		}
		seen = p.eqs
		if kind == "pairing" {
			// equations that differ by a constant factor are the same
			if w.Sign() == 0 || g.Sign() == 0 {
				return w.Sign() == g.Sign(), ""
			}
			q := new(big.Int).ModInverse(w, frOrder)
			q.Mul(q, g).Mod(q, frOrder)
			if ratio != nil && ratio.Cmp(q) != 0 {
				return false, ""
			}
			ratio = q
			return true, ""
		}
		return g.Cmp(w) == 0, ""
	}
	type state struct {
		over  map[string]*big.Int
		depth int
	}
	for seed := int64(1); seed <= 2; seed++ {
		work := []state{{nil, 0}}
		done := map[string]bool{}
		for n := 0; n < len(work) && n < 60; n++ {
			st := work[n]
			if ok, why := try(seed, st.over); !ok {
				return false, why
			}
			if dbgSame != nil {
				dbgSame("try", seed, st.over, len(seen), short(got))
			}
			if st.depth >= 3 || seed > 1 {
				continue
			}
			for _, q := range seen {
				if q.val {
					continue
				}
				for _, o := range solveEq(q, seed, st.over, lens, ints) {
					if k := fmt.Sprint(o); !done[k] {
						done[k] = true
						work = append(work, state{o, st.depth + 1})
					}
				}
			}
		}
	}
	return true, ""
}

// solveEq gives choices of operands at which the equation holds: one unknown object it is linear in
// is solved for.
func solveEq(q eqSeen, seed int64, over map[string]*big.Int, lens, ints map[*Term]int64) (out []map[string]*big.Int) {
	keys := map[string]bool{}
	diff := func(over map[string]*big.Int) *big.Int {
		p := &pit{seed: seed, lens: lens, ints: ints, bv: map[int64]int64{}, over: over, keys: keys}
		for k, v := range q.bv {
			p.bv[k] = v
		}
		val := p.fr
		if p.isGroup(q.l) || p.isGroup(q.r) {
			val = p.group
		}
		d := val(q.l)
		d = new(big.Int).Sub(d, val(q.r))
		if p.bad != "" {
			return nil
		}
		return d.Mod(d, frOrder)
	}
	if diff(over) == nil {
		return nil
	}
	for _, k := range sortedKeys(keys) {
		at := func(x int64) *big.Int {
			o := map[string]*big.Int{}
			for k, v := range over {
				o[k] = v
			}
			o[k] = big.NewInt(x)
			return diff(o)
		}
		f0, f1, f2 := at(0), at(1), at(2)
		if f0 == nil || f1 == nil || f2 == nil {
			continue
		}
		s := new(big.Int).Sub(f1, f0)
		s.Mod(s, frOrder)
		l := new(big.Int).Add(f1, s)
		if s.Sign() == 0 || l.Mod(l, frOrder).Cmp(f2) != 0 {
			continue
		}
		x := new(big.Int).ModInverse(s, frOrder)
		x.Mul(x, f0).Neg(x).Mod(x, frOrder)
		o := map[string]*big.Int{}
		for k, v := range over {
			o[k] = v
		}
		o[k] = x
		out = append(out, o)
		if len(out) == 2 {
			break
		}
	}
	return out
}

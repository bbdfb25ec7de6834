package main

import (
	"sort"
	"strconv"
	"strings"
)

// ---------- ranges ----------

var (
	tF     = mkSym("F")
	tN     = linBuild(1, map[*Term]int64{tF: 3})
	rng    = map[*Term][2]*Term{} // inclusive bounds of symbols (nil = unknown)
	nonneg = map[*Term]bool{}     // opaque terms of unsigned type
	bytesz = map[string]int64{"frbytes": 32, "frbe": 32, "u32be": 4, "u64be": 8, "sha256": 32, "sha512": 64}
)

func twoF1() *Term { return add(mulc(tF, 2), mkInt(1)) }

func rangeOf(a *Term) (lo, hi *Term) {
	if r, ok := rng[a]; ok {
		if hi := r[1]; hi != nil {
			// an index of a non-empty range: its bound is positive
			if c, as, ks := linParts(hi); c == -1 && len(as) == 1 && ks[0] == 1 && as[0].op == "max0" {
				return r[0], addc(as[0].args[0], -1)
			}
		}
		return r[0], r[1]
	}
	switch a.op {
	case "sym":
		if a == tF {
			return mkInt(1), nil
		}
	case "len", "count":
		if a.op == "count" {
			return mkInt(0), a.args[0]
		}
		return mkInt(0), nil
	case "first":
		return mkInt(0), addc(a.args[0], -1)
	case "mod":
		return mkInt(0), addc(a.args[1], -1)
	case "fld":
		if a.sym == "Sender" && a.args[0].op != "unm" {
			return mkInt(0), mulc(tF, 3)
		}
		if a.sym == "PID" {
			return mkInt(0), mulc(tF, 3)
		}
	case "bv":
		return mkInt(0), nil
	}
	if nonneg[a] {
		return mkInt(0), nil
	}
	return nil, nil
}

// lowerBound finds a constant lower bound of a linear form from the ranges of its atoms.
func lowerBound(t *Term) (int64, bool) {
	for step := 0; step < 24; step++ {
		if t.op == "int" {
			return t.iv, true
		}
		if t.op == "ite" {
			return 0, false
		}
		c, as, ks := linParts(t)
		// pick the youngest atom with the needed bound, F last
		best := -1
		var repl *Term
		for i := len(as) - 1; i >= 0; i-- {
			if as[i] == tF {
				continue
			}
			lo, hi := rangeOf(as[i])
			r := lo
			if ks[i] < 0 {
				r = hi
				if raw := rng[as[i]][1]; raw != nil && raw != hi {
					for j, a := range as { // cancels the bound's own max0
						if a.op == "max0" && ks[j] > 0 && containsTerm(raw, a) {
							r = raw
						}
					}
				}
			}
			if r == nil || r.op == "ite" || containsTerm(r, as[i]) {
				continue
			}
			if best < 0 || as[i].id > as[best].id {
				best, repl = i, r
			}
		}
		if best < 0 {
			if len(as) == 1 && as[0] == tF && ks[0] >= 0 {
				return c + ks[0], true
			}
			return 0, false
		}
		rest := linComb2(t, 1, as[best], -ks[best])
		t = linComb2(rest, 1, repl, ks[best])
	}
	return 0, false
}

func provGe0(t *Term) bool { v, ok := lowerBound(t); return ok && v >= 0 }

// ge0 is the guard t >= 0.
func ge0(t *Term) *Term {
	if t.op == "ite" {
		return lift([]*Term{t}, func(x []*Term) *Term { return ge0(x[0]) })
	}
	if t.op == "int" {
		return mkBool(t.iv >= 0)
	}
	if provGe0(t) {
		return tTrue
	}
	n := addc(mulc(t, -1), -1)
	if provGe0(n) {
		return tFalse
	}
	_, _, ks := linParts(t)
	if ks[len(ks)-1] < 0 {
		return bNot(raw("ge0", "", 0, []*Term{n}, nil))
	}
	return raw("ge0", "", 0, []*Term{t}, nil)
}

func eq0(t *Term) *Term {
	if t.op == "ite" {
		return lift([]*Term{t}, func(x []*Term) *Term { return eq0(x[0]) })
	}
	if t.op == "int" {
		return mkBool(t.iv == 0)
	}
	if provGe0(addc(t, -1)) || provGe0(addc(mulc(t, -1), -1)) {
		return tFalse
	}
	if provGe0(t) {
		return bNot(ge0(addc(t, -1)))
	}
	if provGe0(mulc(t, -1)) {
		return bNot(ge0(addc(mulc(t, -1), -1)))
	}
	_, _, ks := linParts(t)
	if ks[len(ks)-1] < 0 {
		t = mulc(t, -1)
	}
	return raw("eq0", "", 0, []*Term{t}, nil)
}

func isIntTerm(t *Term) bool {
	if t.op == "int" || t.op == "lin" || t.op == "len" {
		return true
	}
	_, ok := rng[t]
	return ok
}

func mkEq(a, b *Term) *Term {
	if a.op == "ite" || b.op == "ite" {
		return lift([]*Term{a, b}, func(x []*Term) *Term { return mkEq(x[0], x[1]) })
	}
	if a == b {
		return tTrue
	}
	if isIntTerm(a) || isIntTerm(b) {
		return eq0(sub(a, b))
	}
	bool2 := func(t *Term) bool { return t == tTrue || t == tFalse || isAtom(t) }
	if bool2(a) || bool2(b) {
		x, y := asBool(a), asBool(b)
		return mkIte(x, y, bNot(y))
	}
	if (a.op == "list" || a.op == "struct") && a.op == b.op && a.sym == b.sym && len(a.args) == len(b.args) {
		r := tTrue
		for i := range a.args {
			r = bAnd(r, mkEq(a.args[i], b.args[i]))
		}
		return r
	}
	d := func(t *Term) int { // classes of pairwise distinct values
		switch t.op {
		case "nil":
			return 1
		case "str":
			return 2
		case "fr", "g1":
			return 3
		case "loc", "slice", "closure", "alloc", "struct":
			return 4
		case "errnew":
			return 5
		}
		return 0
	}
	da, db := d(a), d(b)
	if da != 0 && db != 0 && (da != db || da == 2 || da == 3) && !(da == 3 && (a.sym == "gen" || b.sym == "gen") && a.op != b.op) {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return raw("eq", "", 0, []*Term{a, b}, nil)
}

// ---------- generic constructor ----------

func mk(op, sym string, args ...*Term) *Term { return mkS(op, sym, 0, args) }

func noLift(op string) bool {
	switch op {
	case "struct", "list", "cat", "tuple", "marshal", "closure", "seq", "recv", "batom":
		return true
	}
	return isBinder(op)
}

func mkS(op, sym string, iv int64, args []*Term) *Term {
	if isBinder(op) {
		return normBinder(raw(op, sym, iv, args, nil))
	}
	if !noLift(op) {
		for _, a := range args {
			if a.op == "ite" {
				return lift(args, func(x []*Term) *Term { return mkS(op, sym, iv, append([]*Term{}, x...)) })
			}
		}
	}
	switch op {
	case "eq":
		return mkEq(args[0], args[1])
	case "ge0":
		return ge0(args[0])
	case "eq0":
		return eq0(args[0])
	case "batom":
		if args[0] == tTrue || args[0] == tFalse || isAtom(args[0]) || args[0].op == "ite" {
			return asBool(args[0])
		}
	case "fld":
		return mkFld(args[0], sym)
	case "sel":
		return mkSel(args[0], args[1])
	case "len":
		return mkLen(args[0])
	case "cat":
		return mkCat(args...)
	case "sub":
		return mkSub(args[0], args[1], args[2])
	case "dec":
		if args[0].op == "int" {
			return mkStr(strconv.FormatInt(args[0].iv, 10))
		}
	case "asfr":
		if args[0].isInt(0) {
			return tFr0
		}
		if args[0].isInt(1) {
			return tFr1
		}
	case "addfr":
		return mkAC("addfr", tFr0, args)
	case "mulfr":
		for _, a := range args {
			if a == tFr0 {
				return tFr0
			}
		}
		// signs go outside
		neg := false
		var fs []*Term
		for _, a := range args {
			if a.op == "negfr" {
				neg = !neg
				a = a.args[0]
			}
			fs = append(fs, a)
		}
		if neg {
			return mk("negfr", "", mk("mulfr", "", fs...))
		}
		return mkAC("mulfr", tFr1, fs)
	case "addg1":
		return mkAC("addg1", tG0, args)
	case "negfr":
		if args[0].op == "negfr" {
			return args[0].args[0]
		}
		if args[0] == tFr0 {
			return tFr0
		}
		if args[0].op == "addfr" {
			var ns []*Term
			for _, a := range args[0].args {
				ns = append(ns, mk("negfr", "", a))
			}
			return mk("addfr", "", ns...)
		}
	case "negg1":
		if args[0].op == "negg1" {
			return args[0].args[0]
		}
		if args[0] == tG0 {
			return tG0
		}
	case "invfr":
		if args[0].op == "invfr" {
			return args[0].args[0]
		}
		if args[0] == tFr1 {
			return tFr1
		}
	case "lincomb", "lincombfr":
		if l := args[1]; l.op == "lagr" && l.args[0] == stdIdx(twoF1()) && l.args[1].op == "asfr" {
			t := l.args[1].args[0]
			if provGe0(addc(t, -1)) && provGe0(sub(twoF1(), t)) {
				return mkSel(args[0], addc(t, -1))
			}
		}
		if l := args[1]; l.op == "lagr" && l.args[0] == stdIdx(twoF1()) && l.args[1] == tFr1 {
			return mkSel(args[0], mkInt(0))
		}
	case "unm":
		if args[0].op == "marshal" && args[0].sym == sym {
			return args[0].args[0]
		}
	case "deccomp":
	case "decpt", "decG1":
		if args[0].op == "compress" {
			return args[0].args[0]
		}
	case "decerr":
		if args[0].op == "compress" {
			return tNil
		}
	case "setfr":
		if args[0].op == "frstr" {
			return args[0].args[0]
		}
	case "decimalerr":
		if args[0].op == "frstr" || args[0].op == "str" && decimal(args[0].sym) {
			return tNil
		}
	case "frfrom":
		if args[0].op == "frbytes" {
			return args[0].args[0]
		}
	case "mod":
		// (h + r) mod m: the representative of the fully reduced sum
		if args[0].isInt(0) {
			return args[0]
		}
	}
	return raw(op, sym, iv, args, nil)
}

// stdIdx is the list of indices 1..n as field elements.
var stdIdxMemo = map[*Term]*Term{}

func stdIdx(n *Term) *Term {
	if t, ok := stdIdxMemo[n]; ok {
		return t
	}
	x := freshSym("i")
	rng[x] = [2]*Term{mkInt(0), addc(n, -1)}
	t := closeBinder("seq", "", n, []*Term{x}, []*Term{mk("asfr", "", addc(x, 1))})
	stdIdxMemo[n] = t
	return t
}

func mkAC(op string, unit *Term, args []*Term) *Term {
	var fl []*Term
	for _, a := range args {
		if a.op == op {
			fl = append(fl, a.args...)
		} else if a != unit {
			fl = append(fl, a)
		}
	}
	// cancel inverse pairs
	neg := map[string]string{"addfr": "negfr", "addg1": "negg1", "mulfr": "invfr"}[op]
	for i := 0; i < len(fl); i++ {
		if fl[i].op == neg {
			for j := range fl {
				if j != i && fl[j] == fl[i].args[0] {
					a, b := i, j
					if a < b {
						a, b = b, a
					}
					fl = append(fl[:a:a], fl[a+1:]...)
					fl = append(fl[:b:b], fl[b+1:]...)
					return mkAC(op, unit, fl)
				}
			}
		}
	}
	sort.SliceStable(fl, func(i, j int) bool { return fl[i].id < fl[j].id })
	if len(fl) == 0 {
		return unit
	}
	if len(fl) == 1 {
		return fl[0]
	}
	return raw(op, "", 0, fl, nil)
}

// ---------- structs ----------

func mkStruct(name string, fields []string, vals []*Term) *Term {
	return raw("struct", name+":"+strings.Join(fields, ","), 0, vals, nil)
}

func structName(t *Term) string { return t.sym[:strings.Index(t.sym, ":")] }

func structField(t *Term, f string) *Term {
	if t == nil || t.op != "struct" {
		return nil
	}
	for i, n := range strings.Split(t.sym[strings.Index(t.sym, ":")+1:], ",") {
		if n == f {
			return t.args[i]
		}
	}
	return nil
}

func mkFld(t *Term, f string) *Term {
	if f == "HonestParty" && t.op == "sym" {
		return tP
	}
	if t.op == "ite" {
		return lift([]*Term{t}, func(x []*Term) *Term { return mkFld(x[0], f) })
	}
	if v := structField(t, f); v != nil {
		return v
	}
	if t == tP {
		switch f {
		case "N":
			return tN
		case "F":
			return tF
		}
	}
	return raw("fld", f, 0, []*Term{t}, nil)
}

// ---------- sequences ----------

var tEmpty = raw("list", "", 0, nil, nil)

func mkList(xs ...*Term) *Term {
	if len(xs) > 1 && xs[0].op == "sel" && xs[0].args[0].op == "netin" {
		in, lo := xs[0].args[0], xs[0].args[1]
		for i, x := range xs {
			if x != mkSel(in, addc(lo, int64(i))) {
				return raw("list", "", 0, xs, nil)
			}
		}
		return mkSub(in, lo, mkInt(int64(len(xs))))
	}
	return raw("list", "", 0, xs, nil)
}

func mkLen(t *Term) *Term {
	switch t.op {
	case "ite":
		return lift([]*Term{t}, func(x []*Term) *Term { return mkLen(x[0]) })
	case "str":
		return mkInt(int64(len(t.sym)))
	case "list":
		return mkInt(int64(len(t.args)))
	case "nil":
		return mkInt(0)
	case "cat":
		r := mkInt(0)
		for _, a := range t.args {
			r = add(r, mkLen(a))
		}
		return r
	case "seq":
		return t.args[0]
	case "slice":
		return t.args[2]
	case "sub":
		return t.args[2]
	case "interp":
		return addc(t.args[0], 1)
	case "lagr":
		return mkLen(t.args[0])
	case "pricoef": // as many as the threshold
		if p := t.args[0]; p.op == "pripolyrand" {
			return p.args[1]
		}
	case "polyroots": // coefficients of the monic polynomial with these roots
		return addc(mkLen(t.args[0]), 1)
	case "flat":
		xs, b := openBinder(t)
		l := mkLen(b[0])
		if !containsTerm(l, xs[0]) {
			return mulInt(t.args[0], l)
		}
		return closeBinder("sumint", "", t.args[0], xs, []*Term{l})
	case "filter":
		xs, b := openBinder(t)
		l := mkLen(b[1])
		if l.isInt(1) {
			return closeBinder("count", "", t.args[0], xs, []*Term{b[0]})
		}
	}
	if t.op == "netin" {
		return t.args[1]
	}
	if n, ok := bytesz[t.op]; ok {
		return mkInt(n)
	}
	if t.op == "fld" && t.args[0] == tP {
		switch t.sym {
		case "ipList", "portList", "ipListNext", "portListNext", "sendChannels", "sendToNextChannels":
			return tN
		case "fullShare", "witness", "witnessIndexes":
			return twoF1()
		case "reducedShare":
			return addc(tF, 1)
		case "LagrangeCoefficients":
			return addc(tN, 1)
		}
	}
	if n, ok := fixedLen[t]; ok {
		return mkInt(n)
	}
	return raw("len", "", 0, []*Term{t}, nil)
}

// fixedLen gives the lengths of operand lists where an analysis is repeated for fixed sizes.
var fixedLen = map[*Term]int64{}

func mkSel(t, i *Term) *Term {
	if t.op == "ite" || i.op == "ite" {
		return lift([]*Term{t, i}, func(x []*Term) *Term { return mkSel(x[0], x[1]) })
	}
	switch t.op {
	case "nil":
		return mkInt(0) // an element of a nil map
	case "seq":
		return instBinder(t, i)[0]
	case "str":
		if i.op == "int" && i.iv >= 0 && i.iv < int64(len(t.sym)) {
			return mkInt(int64(t.sym[i.iv]))
		}
	case "list":
		if i.op == "int" && i.iv >= 0 && i.iv < int64(len(t.args)) {
			return t.args[i.iv]
		}
		if len(t.args) == 1 {
			return t.args[0]
		}
	case "cat":
		off := i
		for _, a := range t.args {
			n := mkLen(a)
			if !provGe0(off) {
				break
			}
			if provGe0(addc(sub(n, off), -1)) {
				return mkSel(a, off)
			}
			if !provGe0(sub(off, n)) {
				break
			}
			off = sub(off, n)
		}
		// from the back: cat(mu, [x]) indexed at len(mu)
		for j := range t.args {
			pre := mkInt(0)
			for _, a := range t.args[:j] {
				pre = add(pre, mkLen(a))
			}
			d := sub(i, pre)
			if d.isInt(0) && provGe0(addc(mkLen(t.args[j]), -1)) {
				return mkSel(t.args[j], d)
			}
		}
	case "sub":
		return mkSel(t.args[0], add(t.args[1], i))
	case "fld":
		if t.args[0] == tP && t.sym == "LagrangeCoefficients" {
			return mk("lagr", "", stdIdx(twoF1()), mk("asfr", "", i))
		}
	}
	return raw("sel", "", 0, []*Term{t, i}, nil)
}

func mkCat(parts ...*Term) *Term {
	var fl []*Term
	for _, p := range parts {
		switch {
		case p.op == "cat":
			for _, q := range p.args {
				fl = catPush(fl, q)
			}
		default:
			fl = catPush(fl, p)
		}
	}
	if len(fl) == 0 {
		return tEmpty
	}
	if len(fl) == 1 {
		return fl[0]
	}
	return raw("cat", "", 0, fl, nil)
}

func catPush(fl []*Term, p *Term) []*Term {
	if p == tNil || p == tEmpty || (p.op == "str" && p.sym == "") {
		return fl
	}
	if p.op == "list" && allByteConst(p) {
		// a list of constant bytes is only built for byte sequences
	}
	if n := len(fl); n > 0 {
		l := fl[n-1]
		if l.op == "str" && p.op == "str" {
			fl[n-1] = mkStr(l.sym + p.sym)
			return fl
		}
		if l.op == "list" && p.op == "list" {
			fl[n-1] = mkList(append(append([]*Term{}, l.args...), p.args...)...)
			return fl
		}
		// the element after a part of the same sequence
		if l.op == "sub" && p.op == "list" && len(p.args) == 1 && p.args[0].op == "sel" && p.args[0].args[0] == l.args[0] && p.args[0].args[1] == add(l.args[1], l.args[2]) {
			fl[n-1] = mkSub(l.args[0], l.args[1], addc(l.args[2], 1))
			return fl
		}
	}
	return append(fl, p)
}

func allByteConst(p *Term) bool { return false }

func mkSub(t, lo, n *Term) *Term {
	if t.op == "ite" || lo.op == "ite" || n.op == "ite" {
		return lift([]*Term{t, lo, n}, func(x []*Term) *Term { return mkSub(x[0], x[1], x[2]) })
	}
	if n.isInt(0) {
		return tEmpty
	}
	if lo.isInt(0) && n == mkLen(t) {
		return t
	}
	switch t.op {
	case "sub":
		return mkSub(t.args[0], add(t.args[1], lo), n)
	case "str":
		if lo.op == "int" && n.op == "int" && lo.iv >= 0 && lo.iv+n.iv <= int64(len(t.sym)) {
			return mkStr(t.sym[lo.iv : lo.iv+n.iv])
		}
	case "seq":
		x := freshSym("i")
		rng[x] = [2]*Term{mkInt(0), addc(n, -1)}
		return closeBinder("seq", "", n, []*Term{x}, []*Term{instBinder(t, add(x, lo))[0]})
	case "list":
		if lo.op == "int" && n.op == "int" && lo.iv >= 0 && lo.iv+n.iv <= int64(len(t.args)) {
			return mkList(t.args[lo.iv : lo.iv+n.iv]...)
		}
	case "cat":
		parts := t.args
		for len(parts) > 0 {
			l := mkLen(parts[0])
			if provGe0(sub(lo, l)) {
				lo = sub(lo, l)
				parts = parts[1:]
				continue
			}
			break
		}
		var out []*Term
		rest := n
		ok := true
		for len(parts) > 0 && !rest.isInt(0) {
			l := mkLen(parts[0])
			av := sub(l, lo)
			if provGe0(sub(rest, av)) { // whole remaining part
				out = append(out, mkSubLeaf(parts[0], lo, av))
				rest = sub(rest, av)
				lo = mkInt(0)
				parts = parts[1:]
				continue
			}
			if provGe0(sub(av, rest)) {
				out = append(out, mkSubLeaf(parts[0], lo, rest))
				rest = mkInt(0)
				break
			}
			ok = false
			break
		}
		if ok && rest.isInt(0) {
			return mkCat(out...)
		}
	}
	return raw("sub", "", 0, []*Term{t, lo, n}, nil)
}

func mkSubLeaf(t, lo, n *Term) *Term {
	if t.op == "cat" {
		return raw("sub", "", 0, []*Term{t, lo, n}, nil)
	}
	return mkSub(t, lo, n)
}

// ---------- binders ----------

func normBinder(t *Term) *Term {
	n := t.args[0]
	bv := raw("bv", "", t.iv, nil, nil)
	if r := trimRange(t, n, bv); r != nil {
		return r
	}
	switch t.op {
	case "seq":
		if n.isInt(0) {
			return tEmpty
		}
		b := t.args[1]
		if b.op == "sel" {
			d := sub(b.args[1], bv)
			if !containsTerm(d, bv) && !containsTerm(b.args[0], bv) {
				return mkSub(b.args[0], d, n)
			}
		}
		if r := byteReplaced(t, n, b, bv); r != nil {
			return r
		}
		if r := splitSeq(t, n, b, bv); r != nil {
			return r
		}
		// the last element written separately, as the others are
		if b.op == "ite" && b.args[0] == ge0(addc(sub(bv, n), 1)) {
			if last := map[*Term]*Term{bv: addc(n, -1)}; subst(b.args[2], last) == subst(b.args[1], last) {
				return normBinder(raw("seq", t.sym, t.iv, []*Term{n, b.args[2]}, nil))
			}
		}
		if n.op == "int" && n.iv <= 4 && n.iv > 0 {
			var xs []*Term
			for i := int64(0); i < n.iv; i++ {
				xs = append(xs, instBinder(t, mkInt(i))[0])
			}
			return mkList(xs...)
		}
	case "forall":
		b := t.args[1]
		if b == tTrue {
			return tTrue
		}
		if b == tFalse {
			return bNot(ge0(addc(n, -1)))
		}
		if n.isInt(1) {
			return instBinder(t, mkInt(0))[0]
		}
		if provGe0(mulc(n, -1)) {
			return tTrue
		}
		if b.op == "ite" && !(b.args[1] == tFalse && b.args[2] == tTrue) {
			return splitForall(t)
		}
	case "sumint":
		if !containsTerm(t.args[1], bv) {
			return mulInt(n, t.args[1])
		}
	case "count":
		if t.args[1] == tTrue {
			return n
		}
		if t.args[1] == tFalse {
			return mkInt(0)
		}
	case "sumfr":
		if t.args[1] == tFr0 {
			return tFr0
		}
	case "sumg1":
		if t.args[1] == tG0 {
			return tG0
		}
	case "prodfr":
		if t.args[1] == tFr1 {
			return tFr1
		}
	case "flat":
		if b := t.args[1]; b.op == "list" && len(b.args) == 1 {
			return normBinder(raw("seq", t.sym, t.iv, []*Term{n, b.args[0]}, nil))
		}
		if n.isInt(0) || t.args[1] == tEmpty {
			return tEmpty
		}
	}
	return t
}

// byteReplaced recognises a byte string with one byte at a known position overwritten.
func byteReplaced(t, n, b, bv *Term) *Term {
	if b.op != "ite" || b.args[0].op != "eq0" || b.args[1].op != "int" || b.args[1].iv < 0 || b.args[1].iv > 255 {
		return nil
	}
	k := coefOf(b.args[0].args[0], bv)
	if k != 1 && k != -1 {
		return nil
	}
	p := mulc(linComb2(b.args[0].args[0], 1, bv, -k), -k)
	if containsTerm(p, bv) {
		return nil
	}
	base := normBinder(raw("seq", t.sym, t.iv, []*Term{n, b.args[2]}, nil))
	if base.op != "cat" || !provGe0(p) || !provGe0(addc(sub(n, p), -1)) {
		return nil
	}
	return mkCat(mkSub(base, mkInt(0), p), mkStr(string([]byte{byte(b.args[1].iv)})), mkSub(base, addc(p, 1), addc(sub(n, p), -1)))
}

// splitSeq cuts a sequence at a position where its elements change, if a part of it is a known sequence then.
func splitSeq(t, n, b, bv *Term) *Term {
	if b.op != "ite" {
		return nil
	}
	for _, a := range atomsOf(b) {
		if a.op != "eq0" && a.op != "ge0" {
			continue
		}
		k := coefOf(a.args[0], bv)
		if k != 1 && k != -1 {
			continue
		}
		p := mulc(linComb2(a.args[0], 1, bv, -k), -k) // a: bv == p, k*(bv-p) >= 0
		if containsTerm(p, bv) {
			continue
		}
		if a.op == "ge0" && k == -1 {
			p = addc(p, 1)
		}
		if !provGe0(p) || !provGe0(sub(n, p)) || a.op == "eq0" && !provGe0(addc(sub(n, p), -1)) {
			continue
		}
		part := func(from, m *Term, v bool) *Term {
			if m.isInt(0) {
				return tEmpty
			}
			q := freshSym("q")
			rng[q] = [2]*Term{mkInt(0), addc(m, -1)}
			return closeBinder("seq", t.sym, m, []*Term{q}, []*Term{simplify(subst1(restrict(b, a, v), bv, add(from, q)), tTrue)})
		}
		var parts []*Term
		if a.op == "eq0" {
			x := mkList(subst1(restrict(b, a, true), bv, p))
			parts = []*Term{part(mkInt(0), p, false), x, part(addc(p, 1), addc(sub(n, p), -1), false)}
		} else {
			parts = []*Term{part(mkInt(0), p, k == -1), part(p, sub(n, p), k == 1)}
		}
		known := false
		for i, x := range parts {
			known = known || x.op != "seq" && x != tEmpty && !(a.op == "eq0" && i == 1) && x.op != "list"
		}
		if known {
			for i, x := range parts {
				if x.op == "list" && len(x.args) == 1 && x.args[0].op == "int" && x.args[0].iv >= 0 && x.args[0].iv < 256 {
					parts[i] = mkStr(string([]byte{byte(x.args[0].iv)}))
				}
			}
			return mkCat(parts...)
		}
	}
	return nil
}

// trimRange drops the part of the range on which the body contributes nothing.
func trimRange(t, n, bv *Term) *Term {
	var unit *Term
	switch t.op {
	case "forall":
		unit = tTrue
	case "count":
		unit = tFalse
	case "sumint":
		unit = mkInt(0)
	case "sumfr":
		unit = tFr0
	case "prodfr":
		unit = tFr1
	case "sumg1":
		unit = tG0
	default:
		return nil
	}
	b := t.args[1]
	if b.op != "ite" {
		if !(t.op == "forall" || t.op == "count") || !isAtom(b) {
			return nil
		}
	}
	for _, a := range atomsOf(b) {
		if a.op != "ge0" {
			continue
		}
		x := a.args[0]
		c := coefOf(x, bv)
		if c != 1 && c != -1 {
			continue
		}
		r := sub(x, mulc(bv, c))
		if containsTerm(r, bv) {
			continue
		}
		hi, lo := restrict(b, a, true), restrict(b, a, false)
		if t.op == "forall" && (hi == tFalse || lo == tFalse) {
			// the literal itself is required on the whole range: decided at an end point
			lit := a
			rest := hi
			if hi == tFalse {
				lit, rest = bNot(a), lo
			}
			neg := (c < 0) != (hi == tFalse) // decreasing in bv
			end := mkInt(0)
			if neg {
				end = addc(n, -1)
			}
			p := bOr(bNot(ge0(addc(n, -1))), subst1(lit, bv, end))
			return bAnd(p, reclose(t, n, rest))
		}
		if hi != unit && lo != unit {
			continue
		}
		var from, to *Term // contributing range [from, to)
		switch {
		case c == 1 && lo == unit:
			from, to = mulc(r, -1), n
		case c == 1:
			from, to = mkInt(0), mulc(r, -1)
		case c == -1 && lo == unit:
			from, to = mkInt(0), addc(r, 1)
		default:
			from, to = addc(r, 1), n
		}
		if !(provGe0(from) && provGe0(sub(n, to)) && provGe0(sub(to, from))) {
			continue
		}
		body := hi
		if hi == unit {
			body = lo
		}
		m := sub(to, from)
		q := freshSym("q")
		rng[q] = [2]*Term{mkInt(0), addc(m, -1)}
		return closeBinder(t.op, t.sym, m, []*Term{q}, []*Term{subst1(body, bv, add(from, q))})
	}
	return nil
}

// splitForall distributes a universally quantified guard over its implied literals.
func splitForall(t *Term) *Term {
	n, b := t.args[0], t.args[1]
	var lits []*Term
	rest := b
	for _, a := range atomsOf(b) {
		if bImplies(b, a) {
			lits = append(lits, a)
			rest = restrict(rest, a, true)
		} else if bImplies(b, bNot(a)) {
			lits = append(lits, bNot(a))
			rest = restrict(rest, a, false)
		}
	}
	if len(lits) == 0 {
		return t
	}
	r := tTrue
	for _, l := range lits {
		r = bAnd(r, reclose(t, n, l))
	}
	if rest != tTrue {
		r = bAnd(r, reclose(t, n, rest))
	}
	return r
}

func reclose(t, n, body *Term) *Term {
	x := freshSym("q")
	bv := raw("bv", "", t.iv, nil, nil)
	if !containsTerm(body, bv) {
		return mkForallConst(n, body)
	}
	rng[x] = [2]*Term{mkInt(0), addc(n, -1)}
	return closeBinder("forall", "", n, []*Term{x}, []*Term{subst1(body, bv, x)})
}

// mkForall quantifies body over x in [0,n).
func mkForall(n, x, body *Term) *Term {
	if !containsTerm(body, x) {
		return mkForallConst(n, body)
	}
	return closeBinder("forall", "", n, []*Term{x}, []*Term{body})
}

func mkExists(n, x, body *Term) *Term { return bNot(mkForall(n, x, bNot(body))) }

// ---------- implication with a small order theory ----------

// theory returns the consequences among the arithmetic atoms of ts: pairwise difference facts.
func theory(ts ...*Term) *Term {
	seen := map[*Term]bool{}
	var as []*Term
	for _, t := range ts {
		for _, a := range atomsOf(t) {
			if (a.op == "ge0" || a.op == "eq0") && !seen[a] {
				seen[a] = true
				as = append(as, a)
			}
		}
	}
	r := tTrue
	if len(as) > 40 {
		as = as[:40]
	}
	for i, a := range as {
		for j, b := range as {
			if i == j {
				continue
			}
			x, y := a.args[0], b.args[0]
			if !shareAtom(x, y) {
				continue
			}
			switch {
			case a.op == "ge0" && b.op == "ge0":
				if provGe0(sub(y, x)) { // x>=0 => y>=0
					r = bAnd(r, bOr(bNot(a), b))
				}
				if i < j && provGe0(addc(mulc(add(x, y), -1), -1)) { // x+y<0
					r = bAnd(r, bOr(bNot(a), bNot(b)))
				}
				if i < j && provGe0(addc(add(x, y), 1)) { // x+y>=-1: not both negative
					r = bAnd(r, bOr(a, b))
				}
			case a.op == "eq0" && b.op == "ge0":
				if provGe0(sub(y, x)) || provGe0(add(y, x)) {
					r = bAnd(r, bOr(bNot(a), b))
				} else if provGe0(addc(sub(x, y), -1)) || provGe0(addc(mulc(add(x, y), -1), -1)) {
					r = bAnd(r, bOr(bNot(a), bNot(b)))
				}
			case a.op == "eq0" && b.op == "eq0" && i < j:
				d1, d2 := sub(x, y), add(x, y)
				if provGe0(addc(d1, -1)) || provGe0(addc(mulc(d1, -1), -1)) || provGe0(addc(d2, -1)) || provGe0(addc(mulc(d2, -1), -1)) {
					r = bAnd(r, bOr(bNot(a), bNot(b)))
				}
			}
		}
	}
	return bAnd(r, theory3(as))
}

// theory3 returns consequences among triples of arithmetic atoms: an equation applied to an
// inequality, and sums of two inequalities.
func theory3(as []*Term) *Term {
	r := tTrue
	if len(as) > 12 {
		return r
	}
	for i, a := range as {
		for j, b := range as {
			if i == j || a.op != "ge0" && a.op != "eq0" || b.op != "ge0" || !shareAtom(a.args[0], b.args[0]) {
				continue
			}
			var zs []*Term
			if a.op == "eq0" {
				zs = []*Term{add(b.args[0], a.args[0]), sub(b.args[0], a.args[0])}
			} else if i < j {
				zs = []*Term{add(b.args[0], a.args[0])}
			}
			for _, z := range zs {
				if nTerms(z) > nTerms(b.args[0]) && nTerms(z) > nTerms(a.args[0]) {
					continue
				}
				for k, c := range as {
					if k == i || k == j || c.op != "ge0" || !shareAtom(z, c.args[0]) {
						continue
					}
					y := c.args[0]
					if provGe0(sub(y, z)) {
						r = bAnd(r, bOr(bOr(bNot(a), bNot(b)), c))
					}
					if provGe0(addc(mulc(add(y, z), -1), -1)) {
						r = bAnd(r, bOr(bOr(bNot(a), bNot(b)), bNot(c)))
					}
					if a.op == "eq0" && provGe0(addc(add(y, z), 1)) { // not both negative
						r = bAnd(r, bOr(bOr(bNot(a), b), c))
					}
				}
			}
		}
	}
	return r
}

func nTerms(t *Term) int { _, xs, _ := linParts(t); return len(xs) }

func shareAtom(x, y *Term) bool {
	_, as, _ := linParts(x)
	_, bs, _ := linParts(y)
	for _, a := range as {
		for _, b := range bs {
			if a == b && a != tF {
				return true
			}
		}
	}
	return false
}

// implies decides g => c with the order theory.
func implies(g, c *Term) bool {
	if c == tTrue || g == tFalse {
		return true
	}
	if bImplies(g, c) {
		return true
	}
	th := theory(g, c)
	if bImplies(bAnd(g, th), c) {
		return true
	}
	in := instances(g, c)
	if in == tTrue {
		return false
	}
	return bImplies(bAnd(bAnd(g, th), in), c) || bImplies(bAndN(g, theory(g, c, in), in), c)
}

// instances are the instances of the universal facts among the atoms of g at the atoms of g and c.
func instances(g, c *Term) *Term {
	var qs, as []*Term
	seen := map[*Term]bool{}
	for _, t := range []*Term{g, c} {
		for _, a := range atomsOf(t) {
			if seen[a] {
				continue
			}
			seen[a] = true
			if a.op == "forall" {
				qs = append(qs, a)
			}
			as = append(as, a)
		}
	}
	r := tTrue
	for _, q := range qs {
		for _, a := range as {
			if a.op == "forall" {
				if a != q && a.args[1] == q.args[1] { // a prefix of the range
					r = bAnd(r, bOr(bNot(bAnd(q, ge0(sub(q.args[0], a.args[0])))), a))
				}
				continue
			}
			r = bAnd(r, instanceAt(q, a))
		}
	}
	return r
}

var instMemo = map[[2]int]*Term{}

// instanceAt is "q implies its instance that mentions atom a", or true.
func instanceAt(q, a *Term) *Term {
	key := [2]int{q.id, a.id}
	if r, ok := instMemo[key]; ok {
		return r
	}
	r := tTrue
	bv := raw("bv", "", q.iv, nil, nil)
	for _, b := range atomsOf(q.args[1]) {
		if b.op != a.op || b.sym != a.sym {
			continue
		}
		var x *Term
		if matchBV(b, a, bv, &x) && x != nil {
			out := bNot(bAnd(ge0(x), ge0(addc(sub(q.args[0], x), -1))))
			if out == tTrue {
				continue
			}
			r = bOr(bOr(bNot(q), out), instBinder(q, x)[0])
			break
		}
	}
	instMemo[key] = r
	return r
}

// matchBV finds the index x with p[bv:=x] = t.
func matchBV(p, t, bv *Term, x **Term) bool {
	if p == t {
		return true
	}
	if !containsTerm(p, bv) {
		return false
	}
	if k := coefOf(p, bv); (k == 1 || k == -1) && (p == bv || p.op == "lin") {
		rest := linComb2(p, 1, bv, -k)
		if !containsTerm(rest, bv) {
			v := mulc(sub(t, rest), k)
			if *x == nil {
				*x = v
			}
			return *x == v
		}
	}
	if p.op != t.op || p.sym != t.sym || len(p.args) != len(t.args) || p.iv != t.iv && !isBinder(p.op) || isBinder(p.op) {
		return false
	}
	for i := range p.coefs {
		if i >= len(t.coefs) || p.coefs[i] != t.coefs[i] {
			return false
		}
	}
	switch p.op {
	case "eq", "addg1", "addfr", "mulfr": // commutative: any assignment of the arguments
		used := make([]bool, len(t.args))
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == len(p.args) {
				return true
			}
			for j := range t.args {
				if used[j] {
					continue
				}
				old := *x
				used[j] = true
				if matchBV(p.args[i], t.args[j], bv, x) && rec(i+1) {
					return true
				}
				used[j] = false
				*x = old
			}
			return false
		}
		return rec(0)
	}
	for i := range p.args {
		if !matchBV(p.args[i], t.args[i], bv, x) {
			return false
		}
	}
	return true
}

func unsat(g *Term) bool { return g == tFalse || implies(g, tFalse) }

var simpMemo = map[[2]int]*Term{}

// simplify drops from v the gates decided by the path guard pc.
func simplify(v, pc *Term) *Term {
	if pc == tTrue || (v.op != "ite" && !isAtom(v)) {
		return v
	}
	k := [2]int{v.id, pc.id}
	if r, ok := simpMemo[k]; ok {
		return r
	}
	r := v
	for _, a := range atomsOf(v) {
		if r.op != "ite" && !isAtom(r) {
			break
		}
		if implies(pc, a) {
			r = restrict(r, a, true)
		} else if implies(pc, bNot(a)) {
			r = restrict(r, a, false)
		}
	}
	simpMemo[k] = r
	return r
}

// deepSimp drops the gates decided by the enclosing gates (and by pc) everywhere inside v.
func deepSimp(v, pc *Term) *Term { return deepSimpM(v, pc, map[[2]int]*Term{}) }

func deepSimpM(v, pc *Term, memo map[[2]int]*Term) *Term {
	if len(v.args) == 0 {
		return v
	}
	key := [2]int{v.id, pc.id}
	if r, ok := memo[key]; ok {
		return r
	}
	v0 := v
	v = simplify(v, pc)
	var r *Term
	switch {
	case v.op == "ite" && v.args[1] != tTrue && v.args[1] != tFalse && v.args[2] != tTrue && v.args[2] != tFalse:
		a := v.args[0]
		r = mkIte(a, deepSimpM(v.args[1], bAnd(pc, a), memo), deepSimpM(v.args[2], bAnd(pc, bNot(a)), memo))
	case isBinder(v.op) && binderArity(v.op) == 1:
		n := deepSimpM(v.args[0], pc, memo)
		xs, bodies := openBinder(v)
		if _, ok := rng[xs[0]]; !ok {
			rng[xs[0]] = [2]*Term{mkInt(0), addc(n, -1)}
		}
		for i := range bodies {
			bodies[i] = deepSimpM(bodies[i], pc, memo)
		}
		r = closeBinder(v.op, v.sym, n, xs, bodies)
	default:
		as := make([]*Term, len(v.args))
		ch := false
		for i, a := range v.args {
			as[i] = deepSimpM(a, pc, memo)
			ch = ch || as[i] != a
		}
		r = v
		if ch {
			r = rebuild(v, as)
		}
	}
	memo[key] = r
	_ = v0
	return r
}

// forget removes the conditions on the given variables: it holds when some values of them satisfy t's diagram.
func forget(t *Term, vars ...*Term) *Term {
	for _, a := range atomsOf(t) {
		for _, v := range vars {
			if containsTerm(a, v) {
				t = bOr(restrict(t, a, true), restrict(t, a, false))
				break
			}
		}
	}
	return t
}

// occurrence is the condition for the write to happen for some element of the range of indexes it runs over.
func (e *Entry) occurrence() *Term {
	var vs []*Term
	for _, q := range e.vars {
		for _, x := range e.path {
			if containsTerm(x, q.Sym) {
				vs = append(vs, q.Sym)
				break
			}
		}
	}
	return forget(e.guard, vs...)
}

func decimal(s string) bool {
	for _, r := range s {
		if r < '0' || r > '9' {
			return false
		}
	}
	return s != ""
}

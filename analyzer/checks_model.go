package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

func init() { checks["P26"] = checkWrappers }

// backend is package bls as built with one of its build tags.
type backend struct {
	tag    string
	groups bool // has curve groups (the two integer backends only have the field)
}

var backends = []backend{{"", true}, {"bignum_hbls", true}, {"bignum_hol256", false}, {"bignum_pure", false}}

// on analyses with the sources selected by a build tag.
func (c *Ck) on(tag string, f func()) {
	if tag == "" {
		f()
		return
	}
	p := c.progs[tag]
	if p == nil {
		// packages that do not build with the tag are not needed
		p, _ = load(repoDir, "-tags="+tag)
		if p == nil || p.pkgs[modPath+"/internal/bls"] == nil {
			c.fail("anchor", "bls with "+tag, "package bls does not load with build tag %s", tag)
			panic(abort{})
		}
		for _, e := range p.pkgs[modPath+"/internal/bls"].Errors {
			c.fail("anchor", "bls with "+tag, "package bls does not type-check with build tag %s: %v", tag, e)
			panic(abort{})
		}
		if c.progs == nil {
			c.progs = map[string]*Prog{}
		}
		c.progs[tag] = p
	}
	old, runs := c.prog, c.runs
	c.prog, c.runs, c.suffix = p, map[string]*Run{}, " ("+tag+")"
	defer func() { c.prog, c.runs, c.suffix = old, runs, "" }()
	f()
}

// contract is what a function computes: out is "arg0" (written through the first parameter),
// "ret" (returned) or "ret*" (the object returned points to).
type contract struct {
	fn, out, want string
	aliases       bool // the result may be stored over an operand
}

var fieldContracts = []contract{
	{"bls.AsFr", "arg0", "asfr(a1)", false},
	{"bls.SetFr", "arg0", "setfr(a1)", false},
	{"bls.CopyFr", "arg0", "a1", true},
	{"bls.AddModFr", "arg0", "addfr(a1,a2)", true},
	{"bls.SubModFr", "arg0", "addfr(a1,negfr(a2))", true},
	{"bls.MulModFr", "arg0", "mulfr(a1,a2)", true},
	{"bls.DivModFr", "arg0", "mulfr(a1,invfr(a2))", true},
	{"bls.InvModFr", "arg0", "invfr(a1)", true},
	{"bls.ExpModFr", "arg0", "expfr(a1,a2)", false},
	{"bls.EqualZero", "ret", "a0 == fr0", false},
	{"bls.EqualOne", "ret", "a0 == fr1", false},
	{"bls.EqualFr", "ret", "a0 == a1", false},
	{"bls.FrStr", "ret", "frstr(a0)", false},
	{"bls.Fr.String", "ret", "frstr(recv)", false},
	{"bls.ToFr", "ret", "setfr(a0)", false},
	{"bls.FrTo32", "ret", "seq(i, 32, frbe(a0)[31-i])", false},
}

var groupContracts = []contract{
	{"bls.CopyG1", "arg0", "a1", true},
	{"bls.AddG1", "arg0", "addg1(a1,a2)", true},
	{"bls.SubG1", "arg0", "addg1(a1,negg1(a2))", true},
	{"bls.MulG1", "arg0", "mulg1(a1,a2)", true},
	{"bls.NegG1", "arg0", "negg1(a0)", false},
	{"bls.ClearG1", "arg0", "g0", false},
	{"bls.EqualG1", "ret", "a0 == a1", false},
	{"bls.ToCompressedG1", "ret", "compress(a0)", false},
	{"bls.LinCombG1", "ret*", "lincomb(a0,a1)", false},
	{"bls.CopyG2", "arg0", "a1", true},
	{"bls.AddG2", "arg0", "addg2(a1,a2)", true},
	{"bls.SubG2", "arg0", "subg2(a1,a2)", true},
	{"bls.MulG2", "arg0", "mulg2(a1,a2)", true},
	{"bls.NegG2", "arg0", "negg2(a0)", false},
	{"bls.ClearG2", "arg0", "g20", false},
	{"bls.EqualG2", "ret", "a0 == a1", false},
	{"bls.ToCompressedG2", "ret", "compressg2(a0)", false},
}

// operand is the value a parameter holds at entry.
func operand(r *Run, i int) *Term {
	sig := r.prog.names[r.name].fn.Type().(*types.Signature)
	t := sig.Params().At(i).Type()
	a := mkSym(fmt.Sprintf("arg%d", i))
	if j, ok := r.sameArg[i]; ok {
		a = mkSym(fmt.Sprintf("arg%d", j))
	}
	return typed(a, t)
}

// retVal is the value the analysed function returns.
func (r *Run) retVal(i int) *Term {
	for _, e := range r.effects {
		if e.kind == "return" && e.fn == r.name && len(e.args) > i {
			return e.args[i]
		}
	}
	return nil
}

// holds checks a contract, on its own and with operands that are the same object.
func (c *Ck) contract(k contract, rule string) {
	fi := c.prog.names[k.fn]
	if fi == nil {
		c.fail("anchor", k.fn+c.suffix, "function %s not found", k.fn)
		return
	}
	sig := fi.fn.Type().(*types.Signature)
	forms := []map[int]int{nil}
	if k.aliases {
		if sig.Params().Len() == 2 {
			forms = append(forms, map[int]int{1: 0})
		} else {
			forms = append(forms, map[int]int{1: 0}, map[int]int{2: 1}, map[int]int{1: 0, 2: 0})
			if types.Identical(sig.Params().At(2).Type(), sig.Params().At(0).Type()) {
				forms = append(forms, map[int]int{2: 0})
			} else {
				forms = []map[int]int{nil, {1: 0}}
			}
		}
	}
	for _, f := range forms {
		tag, how := "", ""
		if f != nil {
			tag = fmt.Sprint("same", f)
			how = " when operands share an object"
		}
		f := f
		r := c.runOpt(k.fn, tag, func(it *Interp) { it.sameArg = f })
		env := r.env.with("g20", mkSym("g2:0"), "recv", mkSym("recv"))
		for i := 0; i < sig.Params().Len(); i++ {
			env = env.with(fmt.Sprintf("a%d", i), operand(r, i))
		}
		want := env.T(k.want)
		site := k.fn + c.suffix
		given := tTrue
		if k.fn == "bls.SetFr" {
			given = env.T("decimalerr(a1) == nil_ && !overflow256(bigdec(a1))")
		}
		if k.fn == "bls.LinCombG1" || k.fn == "bls.LinCombFr" {
			given = env.T("len(a0) == len(a1)")
		}
		for i := 0; i < sig.Params().Len(); i++ {
			given = bAnd(given, bNot(mkEq(tNil, mkSym(fmt.Sprintf("arg%d", i)))))
		}
		var got *Term
		switch k.out {
		case "arg0":
			p := sig.Params().At(0).Type().Underlying().(*types.Pointer)
			got = r.mem.readAt(mkSym("arg0"), nil, p.Elem(), given)
		case "ret":
			got = r.retVal(0)
		case "ret*":
			got = r.retVal(0)
			if got != nil {
				got = r.read(got, sig.Results().At(0).Type().Underlying().(*types.Pointer).Elem())
			}
		}
		if got == nil {
			c.ob(false, rule, site, "no result found")
			continue
		}
		// the machine forms of some backends
		got = rewrite(got, func(t *Term) *Term {
			switch {
			case t.op == "bigdec": // an integer in decimal is an element of the big.Int backend
				return mk("setfr", "", t.args[0])
			case t == mkList(mkInt(1), mkInt(0), mkInt(0), mkInt(0)): // limbs
				return tFr1
			}
			return nil
		})
		c.eq(got, want, given, rule, site, "result"+how)
		if k.fn == "bls.LinCombG1" || k.fn == "bls.LinCombFr" {
			refused := tFalse
			for _, e := range r.effects {
				if e.kind == "fatal" {
					refused = bOr(refused, e.pc)
				}
			}
			c.imp(bNot(env.T("len(a0) == len(a1)")), refused, rule, site, "lists of different lengths are refused")
		}
		// nothing else: no panic on operands the contract allows, no other object written
		for _, e := range r.effects {
			if e.kind == "fatal" {
				ok := unsat(bAnd(e.pc, given)) || k.fn == "bls.ExpModFr"
				c.ob(ok, rule+".total", site, "may stop the process at %s%s", r.posStr(e.pos), how)
			}
		}
		for _, e := range r.mem.jent {
			if e.val == nil || e.root.op == "alloc" || k.out == "arg0" && e.root.op == "sym" && e.root.sym == "arg0" || len(e.path) == 0 && e.root.op != "sym" {
				continue
			}
			if e.root.op == "sym" && (strings.HasPrefix(e.root.sym, "arg") || strings.HasPrefix(e.root.sym, "g:") || e.root.sym == "recv") {
				c.ob(unsat(e.guard), rule+".frame", site, "writes %s%s", e.root, how)
			}
		}
		// the result is an object of its own
		if k.out == "ret*" {
			c.ob(r.retVal(0).op != "sym", rule+".frame", site, "returns an existing object")
		}
	}
}

func checkWrappers(c *Ck) {
	for _, b := range backends {
		b := b
		c.on(b.tag, func() {
			for _, k := range fieldContracts {
				c.contract(k, "field.op")
			}
			c.encodings("field.encoding")
			c.batchInverse("field.op")
			if b.groups {
				for _, k := range groupContracts {
					c.contract(k, "group.op")
				}
				c.decoding("group.encoding")
				c.pairing("group.pairing")
			}
			c.constants("field.constants", b)
		})
	}
}

// encodings: a 32-byte string is taken for a field element exactly if it is below the modulus,
// little-endian, and encoding is the inverse.
func (c *Ck) encodings(rule string) {
	r := c.run("bls.FrFrom32")
	site := r.name + c.suffix
	v := mkSym("arg1")
	bigc := func(s string) *Term { return bigConst(s) }
	// limbs of the modulus, most significant first
	mod := []string{"8353516859464449352", "3691218898639771653", "6034159408538082302", "18446744069414584321"}
	limb := func(i int) *Term {
		return typed(mk("deu64le", "", mkSub(v, mkInt(int64(24-8*i)), mkInt(8))), types.Typ[types.Uint64])
	}
	below := tFalse
	for i := 3; i >= 0; i-- {
		lt := ge0(addc(sub(bigc(mod[i]), limb(i)), -1))
		eq := bAnd(ge0(sub(bigc(mod[i]), limb(i))), bNot(lt))
		below = bOr(lt, bAnd(eq, below))
	}
	// what a zero top byte says about the top limb
	given := bOr(bNot(mkEq(mkSel(v, mkInt(31)), mkInt(0))), ge0(addc(sub(bigc(mod[0]), limb(0)), -1)))
	ok := r.retVal(0)
	c.eq(ok, below, given, rule, site, "strings accepted")
	got := r.mem.readAt(mkSym("arg0"), nil, r.typeNamed("internal/bls", "Fr"), tTrue)
	old := newMem().readAt(mkSym("arg0"), nil, r.typeNamed("internal/bls", "Fr"), tTrue)
	acc := bAnd(given, below)
	rev := r.T("seq(i, 32, v[31-i])", "v", v)
	okv := sameTerm(got, mk("frofbe", "", rev), acc) || sameTerm(got, mk("frofle", "", v), acc) || sameTerm(got, mk("frofle", "", mkSub(v, mkInt(0), mkInt(32))), acc)
	c.ob(okv, rule, site, "value stored is %s, want the element with these bytes, least significant first", short(simp2(got, acc)))
	c.eq(got, old, bAnd(given, bNot(below)), rule, site, "value after a rejected string")
}

func bigConst(s string) *Term { return constTerm(parseConst(s), types.Typ[types.Uint64]) }

// batchInverse: every element is replaced by its inverse.
func (c *Ck) batchInverse(rule string) {
	r := c.run("bls.BatchInvModFr")
	i := idx("i", mkInt(0), mkLen(mkSym("arg0")))
	got := r.mem.readAt(mkSym("arg0"), []*Term{i}, r.typeNamed("internal/bls", "Fr"), tTrue)
	c.eq(got, mk("invfr", "", mkSel(mkSym("arg0"), i)), tTrue, rule, r.name+c.suffix, "element i after the call")
}

// decoding: the point that the bytes stand for, or an error.
func (c *Ck) decoding(rule string) {
	for _, g := range []struct{ fn, sfx string }{{"bls.FromCompressedG1", ""}, {"bls.FromCompressedG2", "g2"}} {
		r := c.run(g.fn)
		site := g.fn + c.suffix
		b := mkSym("arg0")
		good := mkEq(mk("decerr"+g.sfx, "", b), tNil)
		p, e := r.retVal(0), r.retVal(1)
		c.eq(mkEq(e, tNil), good, tTrue, rule, site, "success")
		t := r.prog.names[g.fn].fn.Type().(*types.Signature).Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		pt := simplify(p, good)
		if c.ob(pt.op != "nil", rule, site, "no point on success") {
			got := r.read(pt, t)
			ok := false
			for _, o := range []string{"decpt", "decG1"} {
				ok = ok || sameTerm(got, mk(o+g.sfx, "", b), good)
			}
			c.ob(ok, rule, site, "the point decoded is %s", short(got))
		}
	}
}

// pairing: e(a1,a2) = e(b1,b2).
func (c *Ck) pairing(rule string) {
	r := c.run("bls.PairingsVerify")
	a := func(i int) *Term { return operand(r, i) }
	want := pairCheck(pairProduct(pairInv(pairTerm(a(0), a(1))), pairTerm(a(2), a(3))))
	c.eq(r.retVal(0), want, tTrue, rule, r.name+c.suffix, "result")
	for _, e := range r.mem.jent {
		c.ob(e.val == nil || e.root.op != "sym" || !strings.HasPrefix(e.root.sym, "arg"), rule+".frame", r.name+c.suffix, "writes %s", e.root)
	}
}

// constants: what the package's variables hold once it is initialised, and that nothing changes
// them afterwards.
func (c *Ck) constants(rule string, b backend) {
	rawGlobals = true
	defer func() { rawGlobals = false }()
	pk := c.prog.pkgs[modPath+"/internal/bls"]
	r := c.run("bls.init")
	site := "bls.init" + c.suffix
	fr := r.typeNamed("internal/bls", "Fr")
	rd := func(n string, t types.Type) *Term { return r.mem.readAt(mkSym("g:bls."+n), nil, t, tTrue) }
	m1 := mk("negfr", "", tFr1)
	two := mk("asfr", "", mkInt(2))
	want := map[string][]*Term{
		"ZERO": {tFr0}, "ONE": {tFr1}, "TWO": {two},
		"MODULUS_MINUS1":      {m1, mk("addfr", "", tFr0, m1)},
		"MODULUS_MINUS1_DIV2": {mk("mulfr", "", m1, mk("invfr", "", two))},
		"MODULUS_MINUS2":      {mk("negfr", "", two)},
		"INVERSE_TWO":         {mk("invfr", "", two)},
	}
	for _, n := range sortedKeys(want) {
		got := rd(n, fr)
		ok := false
		for _, w := range want[n] {
			ok = ok || sameTerm(got, w, tTrue)
		}
		c.ob(ok, rule, site+": "+n, "%s is initialised to %s, want %s", n, short(got), short(want[n][0]))
	}
	if b.tag == "" {
		for n, w := range map[string]*Term{"GenG1": tGen, "ZeroG1": tG0, "ZERO_G1": tG0} {
			c.eq(rd(n, r.typeNamed("internal/bls", "G1Point")), w, tTrue, rule, site+": "+n, n)
		}
		for n, w := range map[string]*Term{"GenG2": mkSym("g2:gen"), "ZeroG2": mkSym("g2:0")} {
			c.eq(rd(n, r.typeNamed("internal/bls", "G2Point")), w, tTrue, rule, site+": "+n, n)
		}
	}
	// the order of the field
	if o, ok := pk.Types.Scope().Lookup("ModulusStr").(*types.Const); c.ob(ok, rule, site, "no constant ModulusStr") {
		c.ob(o.Val().ExactString() == `"52435875175126190479447740508185965837690552500527637822603658699938581184513"`, rule, site+": ModulusStr", "the modulus is %s", o.Val().ExactString())
	}
	// roots of unity: entry k is a primitive 2^k-th root
	c.roots(rule, site, r)
	names := map[string]bool{}
	for n := range want {
		names[n] = true
	}
	for _, n := range []string{"GenG1", "GenG2", "ZeroG1", "ZeroG2", "ZERO_G1", "Scale2RootOfUnity", "_modulus"} {
		names[n] = true
	}
	c.neverWritten(rule+".frozen", names, !b.groups)
}

// neverWritten: outside package initialisation, the variables are only read. An address may be
// taken only as the argument of a parameter the callee does not write.
func (c *Ck) neverWritten(rule string, names map[string]bool, partial bool) {
	inits := c.initOnly()
	var fis []*FuncInfo
	for _, fi := range c.prog.funcs {
		fis = append(fis, fi)
	}
	sort.Slice(fis, func(i, j int) bool { return fis[i].decl.Pos() < fis[j].decl.Pos() })
	for _, fi := range fis {
		if inits[fi.fn] || fi.decl.Body == nil || partial && fi.pkg.Name != "bls" {
			continue
		}
		info := fi.pkg.TypesInfo
		alias := map[types.Object]string{} // local variables holding the address of one
		at := func(n ast.Node) string { return funcName(fi.fn) + c.suffix }
		is := func(e ast.Expr) string {
			for {
				switch x := ast.Unparen(e).(type) {
				case *ast.Ident:
					if v := alias[info.Uses[x]]; v != "" {
						return v
					}
					if v, ok := info.Uses[x].(*types.Var); ok && v.Pkg() != nil && v.Pkg().Path() == modPath+"/internal/bls" && v.Parent() == v.Pkg().Scope() && names[v.Name()] {
						return v.Name()
					}
					return ""
				case *ast.SelectorExpr:
					if v, ok := info.Uses[x.Sel].(*types.Var); ok && !v.IsField() {
						e = x.Sel
						continue
					}
					e = x.X
				case *ast.IndexExpr:
					e = x.X
				case *ast.CallExpr: // conversion
					if tv, ok := info.Types[x.Fun]; ok && tv.IsType() && len(x.Args) == 1 {
						e = x.Args[0]
						continue
					}
					return ""
				case *ast.UnaryExpr:
					if x.Op == token.AND {
						e = x.X
						continue
					}
					return ""
				case *ast.StarExpr:
					e = x.X
				case *ast.SliceExpr:
					e = x.X
				default:
					return ""
				}
			}
		}
		isAddr := func(e ast.Expr) string {
			x := ast.Unparen(e)
			for {
				if k, ok := x.(*ast.CallExpr); ok {
					if tv, ok := info.Types[k.Fun]; ok && tv.IsType() && len(k.Args) == 1 {
						x = ast.Unparen(k.Args[0])
						continue
					}
				}
				break
			}
			switch y := x.(type) {
			case *ast.UnaryExpr:
				if y.Op == token.AND {
					return is(y.X)
				}
			case *ast.Ident, *ast.SelectorExpr, *ast.SliceExpr:
				if id, isID := y.(*ast.Ident); isID && alias[info.Uses[id]] != "" {
					return alias[info.Uses[id]]
				}
				if t := info.TypeOf(x); t != nil {
					if _, ok := t.Underlying().(*types.Slice); ok {
						return is(x)
					}
				}
			}
			return ""
		}
		ok := map[ast.Node]bool{}
		ast.Inspect(fi.decl.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				for i, r := range x.Rhs {
					if v := isAddr(r); v != "" && len(x.Lhs) == len(x.Rhs) && x.Tok == token.DEFINE {
						if id, isID := x.Lhs[i].(*ast.Ident); isID {
							alias[info.Defs[id]] = v
							markAddr(r, ok)
						}
					}
				}
				for _, l := range x.Lhs {
					if v := is(l); v != "" {
						if id, isID := ast.Unparen(l).(*ast.Ident); isID && (x.Tok == token.DEFINE || alias[info.Uses[id]] != "") {
							continue
						}
						c.ob(false, rule, at(l), "%s assigns to bls.%s", funcName(fi.fn), v)
					}
				}
			case *ast.IncDecStmt:
				if v := is(x.X); v != "" {
					c.ob(false, rule, at(x), "%s changes bls.%s", funcName(fi.fn), v)
				}
			case *ast.CallExpr:
				if tv, isT := info.Types[x.Fun]; isT && tv.IsType() {
					return true
				}
				f := calleeOf(info, x)
				args := x.Args
				if s, isSel := ast.Unparen(x.Fun).(*ast.SelectorExpr); isSel && f != nil && f.Type().(*types.Signature).Recv() != nil {
					if v := is(s.X); v != "" {
						ok[s.X] = true
						if _, ptr := f.Type().(*types.Signature).Recv().Type().(*types.Pointer); ptr || isAddr(s.X) != "" {
							c.ob(c.readsOnly(f, -1), rule, at(x), "%s calls %s on bls.%s, which may change it", funcName(fi.fn), f.Name(), v)
							markAddr(s.X, ok)
						}
					}
				}
				for i, a := range args {
					if v := isAddr(a); v != "" {
						markAddr(a, ok)
						c.ob(f != nil && c.readsOnly(f, i) || isLenCap(info, x), rule, at(x), "%s passes bls.%s to a parameter that may be written", funcName(fi.fn), v)
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND && !ok[x] {
					if v := is(x.X); v != "" {
						c.ob(false, rule, at(x), "%s keeps the address of bls.%s", funcName(fi.fn), v)
					}
				}
			}
			return true
		})
		c.obl++
		c.rules[rule]++
	}
}

// initOnly are the functions that run during package initialisation only: init functions and those
// that only they refer to.
func (c *Ck) initOnly() map[*types.Func]bool {
	users := map[*types.Func]map[*types.Func]bool{}
	initDecl := map[*types.Func]bool{}
	for _, pk := range c.prog.pkgs {
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				from := (*types.Func)(nil)
				if fd, ok := d.(*ast.FuncDecl); ok {
					from, _ = pk.TypesInfo.Defs[fd.Name].(*types.Func)
					if from != nil && fd.Recv == nil && fd.Name.Name == "init" {
						initDecl[from] = true
					}
				}
				ast.Inspect(d, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok {
						if g, ok := pk.TypesInfo.Uses[id].(*types.Func); ok && g != from {
							if users[g] == nil {
								users[g] = map[*types.Func]bool{}
							}
							if _, isVar := d.(*ast.GenDecl); !isVar {
								users[g][from] = true
							}
						}
					}
					return true
				})
			}
		}
	}
	out := initDecl
	for changed := true; changed; {
		changed = false
		for g, us := range users {
			all := !out[g] && len(us) > 0 && !g.Exported()
			for u := range us {
				all = all && out[u]
			}
			if all {
				out[g], changed = true, true
			}
		}
	}
	return out
}

func isLenCap(info *types.Info, x *ast.CallExpr) bool {
	id, ok := ast.Unparen(x.Fun).(*ast.Ident)
	if !ok {
		return false
	}
	b, ok := info.Uses[id].(*types.Builtin)
	return ok && (b.Name() == "len" || b.Name() == "cap")
}

func markAddr(e ast.Expr, ok map[ast.Node]bool) {
	ast.Inspect(e, func(n ast.Node) bool {
		if n != nil {
			ok[n] = true
		}
		return true
	})
}

func calleeOf(info *types.Info, x *ast.CallExpr) *types.Func {
	switch f := ast.Unparen(x.Fun).(type) {
	case *ast.Ident:
		fn, _ := info.Uses[f].(*types.Func)
		return fn
	case *ast.SelectorExpr:
		fn, _ := info.Uses[f.Sel].(*types.Func)
		return fn
	}
	return nil
}

// readsOnly: the function does not write through this parameter (-1: the receiver).
func (c *Ck) readsOnly(f *types.Func, i int) bool {
	name := funcName(f)
	if c.prog.funcs[f] == nil {
		switch {
		case strings.HasPrefix(name, "fmt."), strings.HasPrefix(name, "log."), name == "rand.Int":
			return true
		case strings.HasPrefix(name, "big.Int."), strings.HasPrefix(name, "uint256.Int."):
			switch f.Name() {
			case "Cmp", "ToBig", "Bytes", "Bytes32", "IsZero", "Eq", "String", "FillBytes", "BitLen", "Sign", "Text", "Int64", "Uint64":
				return true
			case "DivMod", "QuoRem", "GCD":
				return false
			}
			return i >= 0
		}
		return false
	}
	root := "recv"
	sig := f.Type().(*types.Signature)
	t := types.Type(nil)
	if i >= 0 {
		if i >= sig.Params().Len() {
			i = sig.Params().Len() - 1
		}
		root = fmt.Sprintf("arg%d", i)
		t = sig.Params().At(i).Type()
	} else {
		t = sig.Recv().Type()
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
	default:
		return true
	}
	old := rawGlobals
	rawGlobals = false
	defer func() { rawGlobals = old }()
	r := c.run(name)
	for _, e := range r.mem.jent {
		if e.val != nil && e.root.op == "sym" && e.root.sym == root && !unsat(e.guard) {
			return false
		}
	}
	return true
}

// roots: entry k of the table is a primitive 2^k-th root of unity.
func (c *Ck) roots(rule, site string, r *Run) {
	l := r.mem.readAt(mkSym("g:bls.Scale2RootOfUnity"), nil, c.prog.pkgs[modPath+"/internal/bls"].Types.Scope().Lookup("Scale2RootOfUnity").Type(), tTrue)
	n := mkLen(l)
	site += ": Scale2RootOfUnity"
	if !c.ob(n.op == "int" && n.iv > 0, rule, site, "the number of roots is %s", short(n)) {
		return
	}
	p, _ := new(big.Int).SetString("52435875175126190479447740508185965837690552500527637822603658699938581184513", 10)
	one := big.NewInt(1)
	for k := int64(0); k < n.iv; k++ {
		v := r.elemOf(l, mkInt(k), r.typeNamed("internal/bls", "Fr"))
		x, ok := new(big.Int), false
		if v == tFr1 {
			x, ok = one, true
		} else if v.op == "setfr" && v.args[0].op == "str" {
			x, ok = x.SetString(v.args[0].sym, 10)
		}
		if !c.ob(ok && x.Sign() > 0 && x.Cmp(p) < 0, rule, fmt.Sprintf("%s[%d]", site, k), "is %s, not a decimal number below the modulus", short(v)) {
			continue
		}
		half := new(big.Int).Set(x)
		for j := int64(1); j < k; j++ {
			half.Mul(half, half).Mod(half, p)
		}
		if k == 0 {
			c.ob(x.Cmp(one) == 0, rule, fmt.Sprintf("%s[%d]", site, k), "is %s, want 1", x)
		} else {
			c.ob(new(big.Int).Add(half, one).Cmp(p) == 0, rule, fmt.Sprintf("%s[%d]", site, k), "is not a primitive root of unity of order 2^%d", k)
		}
	}
}

func parseConst(s string) constant.Value { return constant.MakeFromLiteral(s, token.INT, 0) }

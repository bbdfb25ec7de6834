package main

import (
	"go/ast"
	"go/types"
	"strings"
)

func init() { checks["P28"] = checkRandom }

// checkRandom: scalars are drawn from the system's generator over the whole field, each anew, and
// none is used when the generator fails.
func checkRandom(c *Ck) {
	for _, b := range backends {
		c.on(b.tag, func() {
			r := c.run("bls.RandomFr")
			site := r.name + c.suffix
			v := r.retVal(0)
			if !c.ob(v != nil, "rand.source", site, "no result") {
				return
			}
			root, path := locParts(v)
			c.ob(v.op == "loc" && root.op == "alloc" && len(path) == 0 || v.op == "alloc", "rand.own", site, "returns %s, want a new object for each draw", short(v))
			val := simp2(r.resultOf(0), r.returned())
			for val.op == "redof" || val.op == "plainfr" {
				val = val.args[0]
			}
			c.ob(val.op == "frrand" && len(val.args) == 1 && val.args[0].op == "sym" && val.args[0].sym == "g:rand.Reader", "rand.source", site, "draws %s, want a uniform scalar from the system's generator", short(val))
			if val.op == "frrand" && b.tag != "bignum_hbls" { // whose library stops the process itself
				e := raw("randerr", "", 0, []*Term{val}, nil)
				c.imp(bNot(mkEq(e, tNil)), bNot(r.returned()), "rand.failure", site, "a draw that failed is not used")
			}
			c.imp(r.fatals(), bNot(r.returned()), "rand.failure", site, "a draw that failed is not used")
			c.onlyWrites(r, "rand.source", site)
			c.readerKept()
		})
	}
	// polynomials: one draw per coefficient
	for _, b := range backends[:1] {
		c.on(b.tag, func() {
			r := c.run("polyring.NewRandPoly")
			v := r.retVal(0)
			if !c.ob(v != nil, "rand.poly", r.name, "no result") {
				return
			}
			d := mkSym("arg0")
			k := idx("k", mkInt(0), addc(d, 1))
			given := ge0(d)
			plain := map[*Term]*Term{raw("max0", "", 0, []*Term{addc(d, 1)}, nil): addc(d, 1)}
			c.eq(subst(mkLen(v), plain), addc(d, 1), given, "rand.poly", r.name, "number of coefficients")
			co := subst(r.elemOf(v, k, r.typeNamed("internal/bls", "Fr")), plain)
			c.randFresh(simp2(co, bAnd(given, ge0(sub(d, k)))), "rand.poly", r.name, "coefficient k", k)
			root, _ := locParts(v)
			if v.op == "slice" {
				root, _ = locParts(v.args[0])
			}
			c.ob(root.op == "alloc" || root.op == "seq" || root.op == "cat" || root.op == "list", "rand.own", r.name, "returns %s, want a new list", short(v))
			c.onlyWrites(r, "rand.poly", r.name)
		})
	}
}

// returned is the condition under which the function returns.
func (r *Run) returned() *Term {
	g := tFalse
	for _, e := range r.effects {
		if e.kind == "return" && e.name == r.name {
			g = bOr(g, e.pc)
		}
	}
	return g
}

// readerKept: nothing in the module replaces the system's generator.
func (c *Ck) readerKept() {
	n := 0
	for _, fi := range c.prog.funcs {
		if fi.decl.Body == nil {
			continue
		}
		info := fi.pkg.TypesInfo
		is := func(e ast.Expr) bool {
			var id *ast.Ident
			switch x := ast.Unparen(e).(type) {
			case *ast.Ident:
				id = x
			case *ast.SelectorExpr:
				id = x.Sel
			default:
				return false
			}
			v, ok := info.Uses[id].(*types.Var)
			return ok && v.Pkg() != nil && v.Pkg().Path() == "crypto/rand" && v.Name() == "Reader"
		}
		ast.Inspect(fi.decl.Body, func(x ast.Node) bool {
			switch s := x.(type) {
			case *ast.AssignStmt:
				for _, l := range s.Lhs {
					if is(l) {
						c.fail("rand.reader", funcName(fi.fn)+c.suffix, "replaces the system's generator")
					}
				}
			case *ast.UnaryExpr:
				if s.Op.String() == "&" && is(s.X) {
					c.fail("rand.reader", funcName(fi.fn)+c.suffix, "takes the address of the system's generator")
				}
			case *ast.CallExpr:
				if sel, ok := ast.Unparen(s.Fun).(*ast.SelectorExpr); ok {
					if f, ok := info.Uses[sel.Sel].(*types.Func); ok && f.Pkg() != nil && strings.HasPrefix(f.Pkg().Path(), "github.com/herumi") && f.Name() == "SetRandFunc" {
						c.ob(false, "rand.reader", funcName(fi.fn)+c.suffix, "replaces the library's generator")
					}
				}
			}
			return true
		})
		n++
		c.ob(true, "rand.reader", funcName(fi.fn)+c.suffix, "")
	}
	c.ob(n > 0, "rand.reader", "module"+c.suffix, "no functions")
}

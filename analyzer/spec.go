package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// ---------- the specification language ----------
//
// Expected values and guards are written as Go expressions over the constructors of the engine's
// terms; evaluating them goes through the same normalising constructors, so that equality of
// meaning (as far as the normal form goes) is equality of pointers.

// Env binds the names of a specification expression.
type Env map[string]*Term

func (e Env) with(kv ...interface{}) Env {
	n := Env{}
	for k, v := range e {
		n[k] = v
	}
	for i := 0; i+1 < len(kv); i += 2 {
		n[kv[i].(string)] = kv[i+1].(*Term)
	}
	return n
}

// T evaluates a specification expression.
func (e Env) T(src string) *Term {
	x, err := parser.ParseExpr(src)
	if err != nil {
		panic("spec: " + src + ": " + err.Error())
	}
	return e.ev(x)
}

var specSymTypes = map[string]bool{"PID": true, "N": true, "Sender": true, "Index": true}

func (e Env) ev(x ast.Expr) *Term {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.ev(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			v, _ := strconv.ParseInt(x.Value, 0, 64)
			return mkInt(v)
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return mkStr(s)
		}
	case *ast.Ident:
		if v, ok := e[x.Name]; ok {
			return v
		}
		switch x.Name {
		case "F":
			return tF
		case "N":
			return addc(mulc(tF, 3), 1)
		case "P":
			return tP
		case "true":
			return tTrue
		case "false":
			return tFalse
		case "nil_":
			return tNil
		case "empty":
			return tEmpty
		case "fr0":
			return tFr0
		case "fr1":
			return tFr1
		case "g0":
			return tG0
		case "gen":
			return raw("g1", "gen", 0, nil, nil)
		}
		panic("spec: unbound " + x.Name)
	case *ast.SelectorExpr:
		v := mkFld(e.ev(x.X), x.Sel.Name)
		if specSymTypes[x.Sel.Name] {
			if v.op != "ite" && !isIntTerm(v) {
				nonneg[v] = true
			}
		}
		return v
	case *ast.IndexExpr:
		return mkSel(e.ev(x.X), e.ev(x.Index))
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return bNot(asBool(e.ev(x.X)))
		case token.SUB:
			return mulc(e.ev(x.X), -1)
		}
	case *ast.BinaryExpr:
		a := e.ev(x.X)
		b := e.ev(x.Y)
		switch x.Op {
		case token.LAND:
			return bAnd(asBool(a), asBool(b))
		case token.LOR:
			return bOr(asBool(a), asBool(b))
		case token.EQL:
			return mkEq(a, b)
		case token.NEQ:
			return bNot(mkEq(a, b))
		case token.GEQ:
			return ge0(sub(a, b))
		case token.GTR:
			return ge0(addc(sub(a, b), -1))
		case token.LEQ:
			return ge0(sub(b, a))
		case token.LSS:
			return ge0(addc(sub(b, a), -1))
		case token.ADD:
			return add(a, b)
		case token.SUB:
			return sub(a, b)
		case token.MUL:
			return mulInt(a, b)
		}
	case *ast.CallExpr:
		f := x.Fun.(*ast.Ident).Name
		if f == "forall" || f == "exists" || f == "seq" || f == "count" {
			v := x.Args[0].(*ast.Ident).Name
			n := e.ev(x.Args[1])
			s := freshSym("q")
			rng[s] = [2]*Term{mkInt(0), addc(n, -1)}
			body := e.with(v, s).ev(x.Args[2])
			switch f {
			case "forall":
				return mkForall(n, s, asBool(body))
			case "exists":
				return mkExists(n, s, asBool(body))
			}
			return closeBinder("seq", "", n, []*Term{s}, []*Term{body})
		}
		var as []*Term
		for _, a := range x.Args {
			as = append(as, e.ev(a))
		}
		return specCall(f, as)
	}
	panic(fmt.Sprintf("spec: unsupported %T", x))
}

func specCall(f string, as []*Term) *Term {
	switch f {
	case "kzg":
		return mkAtom(raw("check", "kzg", 0, as, nil))
	case "pairing":
		return mkAtom(raw("check", "pairing", 0, as, nil))
	case "rsok":
		return mkAtom(raw("check", "rs", 0, as, nil))
	case "fr32": // field element read from (the first 32 bytes of) a byte string, zero padded
		x := freshSym("q")
		rng[x] = [2]*Term{mkInt(0), mkInt(31)}
		return mk("frfrom", "", closeBinder("seq", "", mkInt(32), []*Term{x}, []*Term{mkIte(ge0(sub(x, mkLen(as[0]))), mkInt(0), mkSel(as[0], x))}))
	case "cat":
		return mkCat(as...)
	case "list":
		return mkList(as...)
	case "len":
		return mkLen(as[0])
	case "ite":
		return mkIte(asBool(as[0]), as[1], as[2])
	case "sub":
		return mkSub(as[0], as[1], as[2])
	case "unm":
		return mk("unm", as[0].sym, as[1])
	case "unmok":
		return mkEq(mk("unmerr", as[0].sym, as[1]), tNil)
	case "u32":
		return mk("u32be", "", as[0])
	case "deu32":
		return mk("deu32be", "", mkSub(as[0], mkInt(0), mkInt(4)))
	case "interp":
		return interpT(as[0], as[1], as[2])
	case "scheme":
		return mk("scheme", as[0].sym, mkSym("suite"))
	case "eval":
		if as[1] == tFr0 {
			return mkSel(as[0], mkInt(0))
		}
		return mk("eval", "", as...)
	case "atom":
		return mkAtom(as[0])
	case "mailbox":
		return raw("mailbox", "", 0, as, nil)
	case "maxz":
		return maxZero(as[0])
	}
	return mk(f, "", as...)
}

// ---------- one property check ----------

type Finding struct {
	rule, site, text string
	known            bool
}

type Ck struct {
	prop, tier string
	prog       *Prog
	runs       map[string]*Run
	finds      []*Finding
	obl        int
	rules      map[string]int
	anal       map[string]bool
	samples    []string
	extra      map[string]int
	depth      int
	progs      map[string]*Prog // the module as built with a build tag
	suffix     string           // of site names, for those
	fixed      map[string]*Run  // analyses with sizes fixed
}

// Run is the analysis of one entry function.
type Run struct {
	*Interp
	ck     *Ck
	name   string
	env    Env
	opt    func(*Interp)
	tag    string
	params []*Term // what is known of the parameters
}

func (c *Ck) run(name string) *Run { return c.runOpt(name, "", nil) }

func (c *Ck) runOpt(name, tag string, opt func(*Interp)) *Run {
	if r := c.runs[name+tag]; r != nil {
		r.enter()
		return r
	}
	if c.prog.names[name] == nil {
		c.fail("anchor", name, "function %s not found", name)
		panic(abort{})
	}
	(*Run)(nil).enter()
	it := c.prog.analyseOpt(name, opt)
	r := &Run{Interp: it, ck: c, name: name, env: Env{}, opt: opt, tag: tag}
	r.params = paramFacts()
	lastRun = r
	c.runs[name+tag] = r
	c.anal[name] = true
	for _, n := range sortedKeys(it.notes) {
		c.extra["engine notes"]++
		if len(c.samples) < 40 {
			c.samples = append(c.samples, "engine note in "+name+": "+n)
		}
	}
	return r
}

// lastRun is the analysis that what is known of the parameters (argN, recv) belongs to.
var lastRun *Run

// enter makes what is known of the parameters that of this run: the same symbols stand for the
// parameters of every function.
func (r *Run) enter() {
	if lastRun == r && r != nil {
		return
	}
	for _, t := range paramFacts() {
		delete(nonneg, t)
	}
	if r != nil {
		for _, t := range r.params {
			nonneg[t] = true
		}
	}
	lastRun = r
	stdIdxMemo, instMemo, simpMemo = map[*Term]*Term{}, map[[2]int]*Term{}, map[[2]int]*Term{}
}

func paramFacts() (out []*Term) {
	for t := range nonneg {
		par := false
		walk(t, func(x *Term) {
			par = par || x.op == "sym" && (x.sym == "recv" || strings.HasPrefix(x.sym, "arg"))
		})
		if par {
			out = append(out, t)
		}
	}
	return
}

type abort struct{}

// ob discharges one obligation of a rule at a construct.
func (c *Ck) ob(ok bool, rule, site, format string, a ...interface{}) bool {
	c.obl++
	c.rules[rule]++
	if !ok {
		c.fail(rule, site, format, a...)
	}
	return ok
}

func (c *Ck) fail(rule, site, format string, a ...interface{}) {
	t := fmt.Sprintf(format, a...)
	for _, f := range c.finds {
		if f.rule == rule && f.site == site {
			return
		}
	}
	c.finds = append(c.finds, &Finding{rule: rule, site: site, text: t})
}

func short(t *Term) string {
	if t == nil {
		return "<none>"
	}
	s := brief(t)
	if len(s) > 1500 && !longOut {
		s = s[:1500] + "…"
	}
	return s
}

var longOut bool

// eq: the term found equals the term specified (both simplified under the guard).
func (c *Ck) eq(got, want, pc *Term, rule, site, what string) bool {
	if unsat(pc) {
		return c.ob(false, rule, site, "%s: the condition of the obligation is unsatisfiable", what)
	}
	return c.ob(sameTerm(got, want, pc), rule, site, "%s: found %s, want %s", what, short(simp2(got, pc)), short(simp2(want, pc)))
}

func simp2(t, pc *Term) *Term {
	if t == nil {
		return nil
	}
	return deepSimp(deepSimp(t, pc), tTrue)
}

func sameTerm(a, b, pc *Term) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a == b {
		return true
	}
	a, b = simp2(a, pc), simp2(b, pc)
	if a == b {
		return true
	}
	if !isAtom(a) && a.op != "ite" && !isAtom(b) && b.op != "ite" && implies(pc, mkEq(a, b)) {
		return true
	}
	// gates in different places: compare under every valuation of the distinguishing atoms
	if sameUnder(a, b, pc, 0) {
		return true
	}
	// sequences: compare the lengths and an arbitrary element
	if (a.op == "seq" || b.op == "seq") && seqLike(a) && seqLike(b) {
		n := mkLen(a)
		if sameTerm(n, mkLen(b), pc) {
			x := idx("i", mkInt(0), n)
			return sameTerm(mkSel(a, x), mkSel(b, x), pc)
		}
	}
	return false
}

func seqLike(t *Term) bool {
	if t.op == "ite" {
		return seqLike(t.args[1]) && seqLike(t.args[2])
	}
	switch t.op {
	case "seq", "list", "cat", "frbytes", "compress", "sub":
		return true
	}
	return false
}

func sameUnder(a, b, pc *Term, depth int) bool {
	if a == b || unsat(pc) {
		return true
	}
	if depth > 10 {
		return false
	}
	var at *Term
	for _, t := range []*Term{a, b} {
		walk(t, func(x *Term) {
			if at == nil && x.op == "ite" && x.bmax == 0 {
				at = x.args[0]
			}
			if at == nil && isAtom(x) && t == x {
				at = x
			}
		})
		if at != nil {
			break
		}
	}
	if at == nil {
		return false
	}
	p1, p0 := bAnd(pc, at), bAnd(pc, bNot(at))
	return sameUnder(simp2(a, p1), simp2(b, p1), p1, depth+1) && sameUnder(simp2(a, p0), simp2(b, p0), p0, depth+1)
}

func (c *Ck) imp(g, want *Term, rule, site, what string) bool {
	return c.ob(implies(g, want), rule, site, "%s: the guard found is %s; it does not imply %s", what, short(g), short(want))
}

// ---------- queries on a run ----------

func (r *Run) where(e *Effect) string { return r.posStr(e.pos) }

func (r *Run) T(src string, kv ...interface{}) *Term { return r.env.with(kv...).T(src) }

// final is the value of a persistent location at the end of the analysed function.
func (r *Run) final(path string, kv ...interface{}) *Term {
	return r.readPath(r.mem, path, r.env.with(kv...), tTrue)
}

// readPath reads "P.a.b[i].c" in memory m.
func (r *Run) readPath(m *Mem, path string, env Env, pc *Term) *Term {
	x, err := parser.ParseExpr(path)
	if err != nil {
		panic(err)
	}
	old, oldpc := r.mem, r.Interp.pc
	r.mem, r.Interp.pc = m, pc
	defer func() { r.mem, r.Interp.pc = old, oldpc }()
	v, _ := r.rdExpr(x, env)
	return v
}

func (r *Run) typeNamed(pkg, name string) types.Type {
	for path, pk := range r.prog.pkgs {
		if strings.HasSuffix(path, "/"+pkg) {
			if o := pk.Types.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func (r *Run) rdExpr(x ast.Expr, env Env) (*Term, types.Type) {
	switch x := x.(type) {
	case *ast.Ident:
		if x.Name == "P" {
			return tP, types.NewPointer(r.typeNamed("party", "HonestParty"))
		}
	case *ast.SelectorExpr:
		b, t := r.rdExpr(x.X, env)
		if b == nil {
			return nil, nil
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, nil
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == x.Sel.Name {
				ft := st.Field(i).Type()
				if isRef(b) {
					return r.read(extend(b, fieldElem(x.Sel.Name)), ft), ft
				}
				return mkFld(b, x.Sel.Name), ft
			}
		}
		return nil, nil
	case *ast.IndexExpr:
		b, t := r.rdExpr(x.X, env)
		if b == nil {
			return nil, nil
		}
		i := env.ev(x.Index)
		var et types.Type
		switch u := t.Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Array:
			et = u.Elem()
		case *types.Map:
			et = u.Elem()
		}
		return r.elemOf(b, i, et), et
	}
	panic("readPath")
}

func isRef(t *Term) bool {
	return t.op == "loc" || t == tP || t.op == "sym" || t.op == "fld" || t.op == "sel"
}

// elemOf reads element i of the slice (or sequence) value b.
func (r *Run) elemOf(b, i *Term, et types.Type) *Term {
	if b.op == "ite" {
		return mkIte(b.args[0], r.elemOf(b.args[1], i, et), r.elemOf(b.args[2], i, et))
	}
	if b.op == "slice" || b.op == "loc" || b.op == "sym" || b.op == "fld" || b.op == "sel" {
		if _, isPtr := et.Underlying().(*types.Pointer); !isPtr {
			return r.deep(r.read(elemLoc(b, i), et), et)
		}
		return r.read(elemLoc(b, i), et)
	}
	return mkSel(b, i)
}

// idx makes a symbol ranging over [lo, lo+n).
func idx(name string, lo, n *Term) *Term {
	s := freshSym(name)
	rng[s] = [2]*Term{lo, addc(add(lo, n), -1)}
	return s
}

// recvs lists the values received from mailbox (type, id).
func (r *Run) recvs(typ string) []*Effect {
	var out []*Effect
	for _, e := range r.effects {
		if (e.kind == "recv" || e.kind == "selectcase") && len(e.args) > 0 && e.args[0].op == "mailbox" && e.args[0].args[0] == mkStr(typ) {
			out = append(out, e)
		}
	}
	return out
}

// SendOp is a message sent to one recipient or to a range of recipients.
type SendOp struct {
	e       *Effect
	typ     string
	msg     *Term
	pc      *Term
	dest    *Term // recipient
	all     bool  // to every member
	next    bool  // of the next committee
	loops   []QVar
	payload *Term // the marshalled struct, if the data is one
	data    *Term
}

func (r *Run) sends(typ string) []*SendOp {
	var out []*SendOp
	for _, s := range r.allSends() {
		if s.typ == typ {
			out = append(out, s)
		}
	}
	return out
}

func (r *Run) allSends() []*SendOp {
	var out []*SendOp
	for _, e := range r.effects {
		if e.kind != "Send" || unsat(e.pc) {
			continue
		}
		m := e.args[0]
		for _, lf := range sendLeaves(m, tTrue) {
			pc := simplify(bAnd(e.pc, lf[0]), tTrue)
			if unsat(pc) {
				continue
			}
			mm := lf[1]
			s := &SendOp{e: e, msg: mm, pc: pc, loops: e.loops}
			if t := mkFld(mm, "Type"); t.op == "str" {
				s.typ = t.sym
			} else {
				s.typ = "?" + t.String()
			}
			s.data = simp2(mkFld(mm, "Data"), pc)
			if s.data.op == "marshal" {
				s.payload = s.data.args[0]
			}
			short := e.name[strings.LastIndex(e.name, ".")+1:]
			s.next = strings.Contains(short, "Next")
			switch {
			case strings.HasPrefix(short, "Broadcast") && short != "BroadcastExclude":
				s.all = true
			case short == "BroadcastExclude":
				s.dest = mk("allbut", "", e.args[1])
			default:
				s.dest = simp2(e.args[1], pc)
				// a loop over all recipients
				for i, q := range e.loops {
					k := coefOf(s.dest, q.Sym)
					if k != 1 || q.N == tOmega {
						continue
					}
					off := sub(s.dest, q.Sym)
					if off == mkInt(0) && q.N == addc(mulc(tF, 3), 1) {
						// normalise: recipient symbol
						d := idx("dest", mkInt(0), q.N)
						m := map[*Term]*Term{q.Sym: d}
						s.all = true
						s.dest = d
						s.msg, s.pc, s.data = subst(s.msg, m), subst(s.pc, m), subst(s.data, m)
						if s.payload != nil {
							s.payload = subst(s.payload, m)
						}
						s.loops = append(append([]QVar{}, e.loops[:i]...), e.loops[i+1:]...)
						break
					}
				}
			}
			out = append(out, s)
		}
	}
	return out
}

func sendLeaves(m, g *Term) [][2]*Term {
	if m.op == "ite" {
		a := sendLeaves(m.args[1], bAnd(g, m.args[0]))
		return append(a, sendLeaves(m.args[2], bAnd(g, bNot(m.args[0])))...)
	}
	return [][2]*Term{{g, m}}
}

// field f of the payload of a send.
func (s *SendOp) f(name string) *Term {
	if s.payload == nil {
		return nil
	}
	return simp2(mkFld(s.payload, name), s.pc)
}

// ---------- loops: values after one more iteration ----------

func (r *Run) loopOf(muT *Term) *loopInfo {
	for _, li := range r.loopInfos {
		if li.id == muT.sym && li.k == muT.args[1] {
			return li
		}
	}
	return r.loopInfos[muT.sym]
}

// nextLoc is the value of a location after the iteration of loop li.
func (r *Run) nextLoc(li *loopInfo, l *Term, t types.Type) *Term {
	root, path := locParts(l)
	return li.snap.readAt(root, path, t, li.end)
}

// next is the value of t after one more iteration of li that goes round again or leaves.
func (r *Run) next(li *loopInfo, t *Term) *Term {
	m := map[*Term]*Term{}
	walk(t, func(x *Term) {
		if x.op == "mu" && x.sym == li.id && x.args[1] == li.k && m[x] == nil {
			root, path := locParts(x.args[0])
			m[x] = li.snap.readAt(root, path, nil, tTrue)
		}
	})
	return subst(t, m)
}

func mus(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	walk(t, func(x *Term) {
		if x.op == "mu" && !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	})
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

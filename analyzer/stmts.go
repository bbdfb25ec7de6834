package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
)

func (it *Interp) block(stmts []ast.Stmt) {
	for _, s := range stmts {
		if it.pc == tFalse {
			return
		}
		it.stmt(s)
	}
}

func (it *Interp) stmt(s ast.Stmt) {
	switch x := s.(type) {
	case nil, *ast.EmptyStmt:
	case *ast.BlockStmt:
		it.block(x.List)
	case *ast.ExprStmt:
		switch y := ast.Unparen(x.X).(type) {
		case *ast.CallExpr:
			it.call(y)
		default:
			it.ev(x.X)
		}
	case *ast.AssignStmt:
		it.assign(x)
	case *ast.IncDecStmt:
		l := it.addr(x.X)
		t := it.typeOf(x.X)
		d := int64(1)
		if x.Tok == token.DEC {
			d = -1
		}
		it.storeTo(x.X, l, add(it.read(l, t), mkInt(d)), t, x.Pos())
	case *ast.DeclStmt:
		g, ok := x.Decl.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			return
		}
		for _, sp := range g.Specs {
			v := sp.(*ast.ValueSpec)
			if len(v.Values) == 0 {
				for _, n := range v.Names {
					if o := it.fr.info.Defs[n]; o != nil {
						it.declare(o, zero(o.Type()))
					}
				}
				continue
			}
			var lhs []ast.Expr
			for _, n := range v.Names {
				lhs = append(lhs, n)
			}
			it.bind(lhs, v.Values, true, x.Pos())
		}
	case *ast.IfStmt:
		if x.Init != nil {
			it.stmt(x.Init)
		}
		if it.pc == tFalse {
			return
		}
		c := simplify(asBool(it.ev(x.Cond)), it.pc)
		save := it.pc
		it.pc = it.guard(save, c)
		if it.pc != tFalse {
			it.block(x.Body.List)
		}
		a := it.pc
		it.pc = it.guard(save, bNot(c))
		if x.Else != nil && it.pc != tFalse {
			it.stmt(x.Else)
		}
		it.pc = bOr(a, it.pc)
	case *ast.SwitchStmt:
		it.switchStmt(x, "")
	case *ast.TypeSwitchStmt:
		it.typeSwitch(x)
	case *ast.SelectStmt:
		it.selectStmt(x, "")
	case *ast.ForStmt:
		it.forStmt(x, "")
	case *ast.RangeStmt:
		it.rangeStmt(x, "")
	case *ast.LabeledStmt:
		switch y := x.Stmt.(type) {
		case *ast.ForStmt:
			it.forStmt(y, x.Label.Name)
		case *ast.RangeStmt:
			it.rangeStmt(y, x.Label.Name)
		case *ast.SwitchStmt:
			it.switchStmt(y, x.Label.Name)
		case *ast.SelectStmt:
			it.selectStmt(y, x.Label.Name)
		default:
			it.stmt(x.Stmt)
		}
	case *ast.BranchStmt:
		it.branch(x)
	case *ast.ReturnStmt:
		var vs []*Term
		if len(x.Results) == 0 {
			vs = it.namedVals()
		} else if len(x.Results) == 1 && it.fr.sig.Results().Len() > 1 {
			vs = it.evMulti(x.Results[0])
		} else {
			for _, r := range x.Results {
				vs = append(vs, it.ev(r))
			}
		}
		if it.pc == tFalse {
			return
		}
		// named results are visible to deferred calls
		for i, o := range it.fr.named {
			if l := it.fr.vars[o]; l != nil && i < len(vs) {
				it.write(l, vs[i], o.Type(), x.Pos())
			}
		}
		it.fr.rets = append(it.fr.rets, &ret{pc: it.pc, vals: vs, pos: x.Pos()})
		it.pc = tFalse
	case *ast.GoStmt:
		it.goStmt(x)
	case *ast.DeferStmt:
		it.deferStmt(x)
	case *ast.SendStmt:
		ch := it.ev(x.Chan)
		et := it.typeOf(x.Chan).Underlying().(*types.Chan).Elem()
		v := it.deep(it.ev(x.Value), et)
		it.effect("send", "", x.Pos(), ch, v)
	default:
		it.note("statement %T at %s not modelled", s, it.posStr(s.Pos()))
	}
}

// guard conjoins a condition and drops contradictions of the order theory.
func (it *Interp) guard(pc, c *Term) *Term {
	r := bAnd(pc, c)
	if r != tFalse && unsat(r) {
		return tFalse
	}
	return r
}

func (it *Interp) branch(x *ast.BranchStmt) {
	label := ""
	if x.Label != nil {
		label = x.Label.Name
	}
	for i := len(it.fr.ctrl) - 1; i >= 0; i-- {
		l := it.fr.ctrl[i]
		if label != "" && l.label != label {
			continue
		}
		if x.Tok == token.CONTINUE {
			if !l.isLoop {
				continue
			}
			l.cont = bOr(l.cont, it.pc)
			it.pc = tFalse
			return
		}
		if x.Tok == token.BREAK {
			l.brk = bOr(l.brk, it.pc)
			it.pc = tFalse
			return
		}
	}
	it.note("branch %s at %s not modelled", x.Tok, it.posStr(x.Pos()))
	it.pc = tFalse
}

// ---------- assignment ----------

func (it *Interp) assign(x *ast.AssignStmt) {
	switch x.Tok {
	case token.ASSIGN, token.DEFINE:
		it.bind(x.Lhs, x.Rhs, x.Tok == token.DEFINE, x.Pos())
		return
	}
	ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
		token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR,
		token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.XOR_ASSIGN: token.XOR, token.AND_NOT_ASSIGN: token.AND_NOT}
	t := it.typeOf(x.Lhs[0])
	l := it.addr(x.Lhs[0])
	v := it.binop(ops[x.Tok], it.read(l, t), it.ev(x.Rhs[0]), t, it.typeOf(x.Rhs[0]))
	it.storeTo(x.Lhs[0], l, v, t, x.Pos())
}

// commaOK evaluates the two-valued forms v, ok := e.
func (it *Interp) commaOK(e ast.Expr) ([]*Term, bool) {
	switch x := ast.Unparen(e).(type) {
	case *ast.IndexExpr:
		if u, ok := it.typeOf(x.X).Underlying().(*types.Map); ok {
			m := it.ev(x.X)
			k := it.mapKey(x.Index)
			v := it.read(extend(m, k), u.Elem())
			h := it.read(extend(extend(m, tH), k), types.Typ[types.Bool])
			return []*Term{v, asBool(h)}, true
		}
	case *ast.TypeAssertExpr:
		v := it.ev(x.X)
		if x.Type != nil && v.op == "loc" || v.op == "str" {
			return []*Term{v, tTrue}, true
		}
		return []*Term{v, asBool(mk("app", "isa:"+typName(it.typeOf(x.X)), v))}, true
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			t := it.typeOf(e)
			if tup, ok := t.(*types.Tuple); ok {
				t = tup.At(0).Type()
			}
			v := it.recvFrom(it.ev(x.X), x.Pos(), t)
			return []*Term{v, it.openChan(v, t)}, true
		}
	}
	return nil, false
}

func (it *Interp) bind(lhs, rhs []ast.Expr, def bool, pos token.Pos) {
	var vals []*Term
	if len(lhs) > 1 && len(rhs) == 1 {
		if vs, ok := it.commaOK(rhs[0]); ok {
			vals = vs
		} else {
			vals = it.evMulti(rhs[0])
		}
	} else {
		for _, r := range rhs {
			vals = append(vals, it.ev(r))
		}
	}
	// addresses of plain assignments are computed before any store
	addrs := make([]*Term, len(lhs))
	for i, l := range lhs {
		if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
			continue
		}
		if id, ok := l.(*ast.Ident); ok && def && it.fr.info.Defs[id] != nil {
			continue
		}
		addrs[i] = it.addr(l)
	}
	for i, l := range lhs {
		if i >= len(vals) {
			break
		}
		v := vals[i]
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				continue
			}
			if o := it.fr.info.Defs[id]; def && o != nil {
				it.declare(o, v)
				continue
			}
		}
		it.storeTo(l, addrs[i], v, it.typeOf(l), pos)
	}
}

// storeTo writes v to the location of the expression l (recording presence for map entries).
func (it *Interp) storeTo(l ast.Expr, addr, v *Term, t types.Type, pos token.Pos) {
	if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok {
		if mt, ok := it.typeOf(ix.X).Underlying().(*types.Map); ok {
			m := it.ev(ix.X)
			it.mapStore(m, it.mapKey(ix.Index), v, mt, pos)
			return
		}
	}
	it.write(addr, v, t, pos)
}

// ---------- branching statements ----------

func (it *Interp) switchStmt(x *ast.SwitchStmt, label string) {
	if x.Init != nil {
		it.stmt(x.Init)
	}
	var tag *Term
	var tagT types.Type
	if x.Tag != nil {
		tag = it.ev(x.Tag)
		tagT = it.typeOf(x.Tag)
	}
	lf := &LoopFr{label: label, brk: tFalse, cont: tFalse}
	it.fr.ctrl = append(it.fr.ctrl, lf)
	save := it.pc
	rest := save
	out := tFalse
	type cc struct {
		c    *ast.CaseClause
		cond *Term
	}
	var cs []cc
	var def *ast.CaseClause
	for _, s := range x.Body.List {
		c := s.(*ast.CaseClause)
		if c.List == nil {
			def = c
			cs = append(cs, cc{c, nil})
			continue
		}
		g := tFalse
		for _, e := range c.List {
			it.pc = rest
			var v *Term
			if tag != nil {
				v = asBool(it.binop(token.EQL, tag, it.ev(e), tagT, it.typeOf(e)))
			} else {
				v = asBool(it.ev(e))
			}
			g = bOr(g, v)
		}
		g = simplify(g, rest)
		cs = append(cs, cc{c, bAnd(rest, g)})
		rest = bAnd(rest, bNot(g))
	}
	for i := range cs {
		if cs[i].c == def {
			cs[i].cond = rest
			rest = tFalse
		}
	}
	fall := tFalse
	for _, c := range cs {
		it.pc = bOr(c.cond, fall)
		fall = tFalse
		if unsat(it.pc) {
			it.pc = tFalse
		}
		body := c.c.Body
		ft := false
		if n := len(body); n > 0 {
			if b, ok := body[n-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				body, ft = body[:n-1], true
			}
		}
		if it.pc != tFalse {
			it.block(body)
		}
		if ft {
			fall = it.pc
		} else {
			out = bOr(out, it.pc)
		}
	}
	it.pc = bOr(bOr(out, rest), lf.brk)
	it.fr.ctrl = it.fr.ctrl[:len(it.fr.ctrl)-1]
}

func (it *Interp) typeSwitch(x *ast.TypeSwitchStmt) {
	if x.Init != nil {
		it.stmt(x.Init)
	}
	var v *Term
	switch a := x.Assign.(type) {
	case *ast.AssignStmt:
		v = it.ev(a.Rhs[0].(*ast.TypeAssertExpr).X)
	case *ast.ExprStmt:
		v = it.ev(a.X.(*ast.TypeAssertExpr).X)
	}
	var dt types.Type
	if v.op == "loc" {
		dt = it.dynType(v)
	}
	lf := &LoopFr{brk: tFalse, cont: tFalse}
	it.fr.ctrl = append(it.fr.ctrl, lf)
	save := it.pc
	rest, out := save, tFalse
	for pass := 0; pass < 2; pass++ {
		for _, s := range x.Body.List {
			c := s.(*ast.CaseClause)
			if (c.List == nil) != (pass == 1) {
				continue
			}
			g := tFalse
			for _, e := range c.List {
				t := it.typeOf(e)
				if pt, ok := t.(*types.Pointer); ok && dt != nil {
					if types.Identical(pt.Elem(), dt) {
						g = tTrue
					}
				} else {
					g = bOr(g, asBool(mk("app", "isa:"+typName(t), v)))
				}
			}
			if c.List == nil {
				g = tTrue
			}
			it.pc = bAnd(rest, g)
			rest = bAnd(rest, bNot(g))
			if it.pc != tFalse {
				if o := it.fr.info.Implicits[c]; o != nil {
					it.declare(o, v)
				}
				it.block(c.Body)
			}
			out = bOr(out, it.pc)
		}
	}
	it.pc = bOr(bOr(out, rest), lf.brk)
	it.fr.ctrl = it.fr.ctrl[:len(it.fr.ctrl)-1]
}

func (it *Interp) selectStmt(x *ast.SelectStmt, label string) {
	lf := &LoopFr{label: label, brk: tFalse, cont: tFalse}
	it.fr.ctrl = append(it.fr.ctrl, lf)
	save := it.pc
	rest, out := save, tFalse
	n := len(x.Body.List)
	var guards []*Term
	hasDefault := false
	for i := range x.Body.List {
		g := rest
		if i < n-1 {
			c := raw("choice", it.fr.cs+":"+it.posStr(x.Pos()), int64(i), it.loopSyms(), nil)
			g = bAnd(rest, c)
			rest = bAnd(rest, bNot(c))
		}
		guards = append(guards, g)
		if x.Body.List[i].(*ast.CommClause).Comm == nil {
			hasDefault = true
		}
	}
	if n == 0 {
		it.effect("blockforever", "", x.Pos())
		out = tFalse
	}
	for i, s := range x.Body.List {
		c := s.(*ast.CommClause)
		it.pc = guards[i]
		if c.Comm != nil {
			it.effect("selectcase", fmt.Sprint(hasDefault), c.Pos())
			it.stmt(c.Comm)
		}
		it.block(c.Body)
		out = bOr(out, it.pc)
	}
	it.pc = bOr(out, lf.brk)
	it.fr.ctrl = it.fr.ctrl[:len(it.fr.ctrl)-1]
}

// ---------- goroutines and deferred calls ----------

func (it *Interp) deferStmt(x *ast.DeferStmt) {
	reg := it.pc
	run := it.prepareCall(x.Call)
	it.fr.defers = append(it.fr.defers, func() {
		save := it.pc
		it.pc = bAnd(save, reg)
		if it.pc != tFalse {
			run()
		}
		it.pc = bOr(it.pc, bAnd(save, bNot(reg)))
	})
}

// prepareCall evaluates callee and arguments now and returns the call to be made later.
func (it *Interp) prepareCall(call *ast.CallExpr) func() {
	fun := ast.Unparen(call.Fun)
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := it.fr.info.Uses[id].(*types.Builtin); ok {
			return func() { it.builtin(b.Name(), call) }
		}
	}
	fn := it.callee(call)
	if fn == nil {
		fv := it.ev(fun)
		sig, _ := it.typeOf(fun).Underlying().(*types.Signature)
		args, _ := it.evalArgs(call, sig)
		args = it.packVariadic(call, sig, args)
		return func() { it.callValue(fv, sig, args, call.Pos(), call) }
	}
	sig := fn.Type().(*types.Signature)
	var recv *Term
	var recvT types.Type
	if se, ok := fun.(*ast.SelectorExpr); ok && sig.Recv() != nil {
		if s, ok := it.fr.info.Selections[se]; ok && s.Kind() == types.MethodVal {
			recv, recvT = it.recvVal(se, s, sig)
		}
	}
	args, ts := it.evalArgs(call, sig)
	return func() { it.callFn(fn, recv, recvT, args, ts, call.Pos(), call) }
}

func (it *Interp) goStmt(x *ast.GoStmt) {
	run := it.prepareCall(x.Call)
	if it.pc == tFalse {
		return
	}
	id := it.ctx.id + "/" + it.fr.cs + ":" + it.posStr(x.Pos())
	it.seq++
	c := &Ctx{id: id, parent: it.ctx, vars: append([]QVar{}, it.loops...), spawnSeq: it.seq, loopIDs: append([]string{}, it.loopIDs...)}
	it.effect("go", id, x.Pos())
	if old := it.ctxByID(id); old != nil {
		*old = *c
		c = old
	} else {
		it.ctxs = append(it.ctxs, c)
	}
	mark := len(it.mem.journal)
	savePC, saveHeld, saveCtx := it.pc, it.held, it.ctx
	saveRets, saveCtrl := it.fr.rets, it.fr.ctrl
	it.fr.ctrl = nil
	it.ctx = c
	it.held = nil
	it.pushLearned(c)
	run()
	it.endCtx(x.Pos())
	ws := it.mem.popTo(mark)
	it.pc, it.held, it.ctx = savePC, saveHeld, saveCtx
	it.fr.rets, it.fr.ctrl = saveRets, saveCtrl
	for _, e := range ws {
		if e.barrier != "" {
			continue
		}
		it.ctxWrites = append(it.ctxWrites, e)
		if it.localTo(e.root, c) {
			continue
		}
		// the parent may see this write at any later time
		it.seq++
		it.mem.push(&Entry{vars: e.vars, root: e.root, path: e.path, guard: tTrue, typ: e.typ, ctx: e.ctx, seq: it.seq, barrier: "shared", bid: e.ctx.id, pos: e.pos})
	}
}

func (it *Interp) ctxByID(id string) *Ctx {
	for _, c := range it.ctxs {
		if c.id == id {
			return c
		}
	}
	return nil
}

// localTo tells whether the allocation was made inside the goroutine itself.
func (it *Interp) localTo(root *Term, c *Ctx) bool {
	switch root.op {
	case "cat", "seq", "list", "sub", "str": // a byte string made by the goroutine itself
		return true
	case "alloc":
	default:
		return false
	}
	return it.allocCtx[root.sym] != "" && it.allocCtx[root.sym] != "main" && (it.allocCtx[root.sym] == c.id || len(it.allocCtx[root.sym]) > len(c.id) && it.allocCtx[root.sym][:len(c.id)] == c.id)
}

// pushLearned makes the writes of concurrent goroutines visible in goroutine c.
func (it *Interp) pushLearned(c *Ctx) {
	for _, e := range it.learned {
		w := e.ctx
		if it.localTo(e.root, w) {
			continue
		}
		n := &Entry{root: e.root, path: e.path, guard: tTrue, typ: e.typ, ctx: w, barrier: "shared", bid: w.id, pos: e.pos}
		switch {
		case w.id == c.id:
			if len(c.vars) == 0 {
				continue
			}
			// other instances of this goroutine
			ren := map[*Term]*Term{}
			for _, q := range c.vars {
				f := freshSym("w")
				rng[f] = rng[q.Sym]
				ren[q.Sym] = f
				n.self = append(n.self, f, q.Sym)
			}
			n.vars = renameVars(e.vars, ren)
			for _, q := range c.vars {
				n.vars = append(n.vars, QVar{ren[q.Sym], subst(q.N, ren)})
			}
			n.root, n.path = subst(e.root, ren), substAll(e.path, ren)
			n.vars = dedupVars(n.vars)
		case w.isAncestorOf(c):
			if !it.afterSpawn(e, c, w) {
				continue
			}
			n.vars = e.vars
		default:
			n.vars = append([]QVar{}, e.vars...)
			ren := map[*Term]*Term{}
			for _, q := range w.vars {
				if containsQ(c.vars, q.Sym) {
					f := freshSym("w")
					rng[f] = rng[q.Sym]
					ren[q.Sym] = f
				}
			}
			if len(ren) > 0 {
				n.root, n.path = subst(e.root, ren), substAll(e.path, ren)
				n.vars = renameVars(n.vars, ren)
			}
			for _, q := range w.vars {
				s := q.Sym
				if r, ok := ren[s]; ok {
					s = r
				}
				n.vars = append(n.vars, QVar{s, subst(q.N, ren)})
			}
			n.vars = dedupVars(n.vars)
		}
		it.seq++
		n.seq = it.seq
		it.mem.push(n)
	}
}

func dedupVars(vs []QVar) []QVar {
	var out []QVar
	seen := map[*Term]bool{}
	for _, v := range vs {
		if !seen[v.Sym] {
			seen[v.Sym] = true
			out = append(out, v)
		}
	}
	return out
}

func renameVars(vs []QVar, m map[*Term]*Term) []QVar {
	var out []QVar
	for _, v := range vs {
		s := v.Sym
		if r, ok := m[s]; ok {
			s = r
		}
		out = append(out, QVar{s, subst(v.N, m)})
	}
	return out
}

func substAll(ts []*Term, m map[*Term]*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		out = append(out, subst(t, m))
	}
	return out
}

func containsQ(vs []QVar, s *Term) bool {
	for _, v := range vs {
		if v.Sym == s {
			return true
		}
	}
	return false
}

// afterSpawn: may the write e of ancestor goroutine w happen after c was started?
func (it *Interp) afterSpawn(e *Entry, c, w *Ctx) bool {
	x := c
	for x.parent != nil && x.parent.id != w.id {
		x = x.parent
	}
	if e.seq > it.learnedSpawn[x.id] {
		return true
	}
	// a later iteration of a loop around both writes the same place again
	for _, q := range x.vars {
		if containsQ(w.vars, q.Sym) || containsTerm(e.root, q.Sym) {
			continue
		}
		in := false
		for _, s := range e.inl {
			in = in || s == q.Sym
		}
		for _, p := range e.path {
			in = in && !containsTerm(p, q.Sym)
		}
		if in {
			return true
		}
	}
	return false
}

// endCtx reports locks still held when a goroutine (or entry point) ends.
func (it *Interp) endCtx(pos token.Pos) {
	for _, h := range it.held {
		if !unsat(bAnd(it.pc, h.cond)) {
			it.effect("heldatend", "", pos, h.lock)
		}
	}
}

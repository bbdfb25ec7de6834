package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type FuncInfo struct {
	fn   *types.Func
	decl *ast.FuncDecl
	pkg  *packages.Package
}

type Prog struct {
	fset   *token.FileSet
	pkgs   map[string]*packages.Package
	funcs  map[*types.Func]*FuncInfo
	names  map[string]*FuncInfo
	root   string
	sized  map[string]bool // map types whose len is taken somewhere
	closed map[string]bool // element types of the channels closed somewhere
}

// Ctx is a goroutine of the analysed entry point (or the entry point itself).
type Ctx struct {
	id       string
	parent   *Ctx
	vars     []QVar // the loops around its creation: one instance per valuation
	spawnSeq int
	loopIDs  []string
}

func (c *Ctx) isAncestorOf(d *Ctx) bool {
	for x := d; x != nil; x = x.parent {
		if x.id == c.id {
			return true
		}
	}
	return false
}

// Effect is an observable operation with the guard under which it happens.
type Effect struct {
	kind, name string
	args       []*Term
	pc         *Term
	ctx        *Ctx
	loops      []QVar
	seq        int
	pos        token.Pos
	held       []*Term
	fn         string
}

type LoopFr struct {
	label     string
	isLoop    bool
	brk, cont *Term
}

type ret struct {
	pc   *Term
	vals []*Term
	pos  token.Pos
}

type Frame struct {
	name   string
	info   *types.Info
	pkg    *packages.Package
	parent *Frame
	vars   map[types.Object]*Term
	rets   []*ret
	defers []func()
	cs     string
	ctrl   []*LoopFr
	sig    *types.Signature
	named  []types.Object
	label  string
}

type closure struct {
	lit  *ast.FuncLit
	fr   *Frame
	fn   *types.Func
	recv *Term
}

type lockHeld struct{ lock, cond *Term }

type Interp struct {
	prog      *Prog
	mem       *Mem
	pc        *Term
	loops     []QVar
	loopIDs   []string
	ctx       *Ctx
	ctxs      []*Ctx
	fr        *Frame
	effects   []*Effect
	ctxWrites []*Entry // writes of finished goroutines
	seq       int
	learned   []*Entry
	learnedCt map[string]*Ctx
	mus       map[string]*MuInfo
	held      []lockHeld
	closures  map[string]*closure
	stack     []*types.Func
	rootType  map[string]types.Type
	inlineToo map[string]bool
	sameArg   map[int]int // parameters that are the same pointer as another one
	opaque    map[string]bool
	notes     map[string]bool
	rootFn    string
	steps     int
	// loops with a known number of iterations, at most this, are unrolled (0: closed forms only)
	unroll       int64
	fixArgs      map[string]*Term
	cspos        map[string]token.Pos
	loopInfos    map[string]*loopInfo
	allocCtx     map[string]string
	learnedSpawn map[string]int
	sharedRoots  map[string]bool // locations several goroutines may access
	curPos       token.Pos
}

// MuInfo describes a loop-carried value: its value before the loop and after one more iteration.
type MuInfo struct {
	mu           *Term
	init, update *Term
	loop         string
	vars         []QVar
}

func newInterp(p *Prog) *Interp {
	return &Interp{prog: p, mem: newMem(), pc: tTrue, mus: map[string]*MuInfo{}, closures: map[string]*closure{},
		rootType: map[string]types.Type{}, inlineToo: map[string]bool{}, opaque: map[string]bool{}, notes: map[string]bool{}, cspos: map[string]token.Pos{},
		loopInfos: map[string]*loopInfo{}, allocCtx: map[string]string{}, learnedSpawn: map[string]int{}}
}

func (it *Interp) note(format string, a ...interface{}) { it.notes[fmt.Sprintf(format, a...)] = true }

func (it *Interp) posStr(p token.Pos) string {
	q := it.prog.fset.Position(p)
	return fmt.Sprintf("%s:%d:%d", filepath.Base(q.Filename), q.Line, q.Column)
}

func (it *Interp) heldNow() []*Term {
	var out []*Term
	for _, h := range it.held {
		if implies(it.pc, h.cond) {
			out = append(out, h.lock)
		}
	}
	return out
}

func (it *Interp) effect(kind, name string, pos token.Pos, args ...*Term) *Effect {
	it.seq++
	e := &Effect{kind: kind, name: name, args: args, pc: it.pc, ctx: it.ctx, loops: append([]QVar{}, it.loops...), seq: it.seq, pos: pos, held: it.heldNow(), fn: it.fr.name}
	it.effects = append(it.effects, e)
	return e
}

// ---------- memory access ----------

func (it *Interp) read(ptr *Term, t types.Type) *Term {
	if ptr.op == "ite" {
		a := ptr.args[0]
		save := it.pc
		hi := it.read(simplify(ptr.args[1], save), t)
		lo := it.read(simplify(ptr.args[2], save), t)
		return mkIte(a, hi, lo)
	}
	r, path := locParts(ptr)
	if it.sharedRoots[rootKey(r)] && it.pc != tFalse {
		it.effect("read", "", it.curPos, mkLoc(r, path...))
	}
	return it.mem.readAt(r, path, t, it.pc)
}

// peek reads without leaving a trace of it.
func (it *Interp) peek(ptr *Term, t types.Type) *Term {
	save := it.sharedRoots
	it.sharedRoots = nil
	v := it.read(ptr, t)
	it.sharedRoots = save
	return v
}

func (it *Interp) write(ptr, val *Term, t types.Type, pos token.Pos) {
	if it.pc == tFalse {
		return
	}
	if ptr.op == "ite" {
		save := it.pc
		a := ptr.args[0]
		it.pc = bAnd(save, a)
		it.write(ptr.args[1], simplify(val, it.pc), t, pos)
		it.pc = bAnd(save, bNot(a))
		it.write(ptr.args[2], simplify(val, it.pc), t, pos)
		it.pc = save
		return
	}
	r, path := locParts(ptr)
	if r.op == "nil" {
		return
	}
	guard := it.pc
	if t != nil {
		val = typed(val, t)
	}
	rmw := false
	if val.op == "ite" && t != nil {
		old := it.peek(ptr, t)
		if old == val {
			return
		}
		if old.op != "ite" {
			for _, l := range leavesOf(val) {
				if l == old && l.op != "int" && l != tTrue && l != tFalse {
					g, v := splitLeaf(val, old)
					if v != nil {
						guard, val = bAnd(guard, g), v
					}
					break
				}
			}
		}
	} else if (val.op == "mu" || val.op == "shared" || val.op == "sel" || val.op == "fld") && t != nil {
		if it.peek(ptr, t) == val {
			return // stores back what is there
		}
	}
	it.seq++
	e := &Entry{root: r, path: path, guard: guard, val: val, typ: t, pos: pos, ctx: it.ctx, seq: it.seq, held: it.heldNow(), rmw: rmw, inl: it.loopSyms()}
	it.mem.push(e)
}

// splitLeaf separates a gated value into the condition under which it is not old, and the rest.
func splitLeaf(v, old *Term) (g, rest *Term) {
	if v == old {
		return tFalse, nil
	}
	if v.op != "ite" {
		return tTrue, v
	}
	g1, r1 := splitLeaf(v.args[1], old)
	g2, r2 := splitLeaf(v.args[2], old)
	g = mkIte(v.args[0], g1, g2)
	switch {
	case r1 == nil:
		return g, r2
	case r2 == nil:
		return g, r1
	}
	return g, mkIte(v.args[0], r1, r2)
}

func (it *Interp) loopSyms() []*Term {
	var out []*Term
	for _, q := range it.loops {
		out = append(out, q.Sym)
	}
	return out
}

func (it *Interp) alloc(label string, pos token.Pos, t types.Type) *Term {
	sym := it.fr.cs + "/" + label + "@" + it.posStr(pos)
	if t != nil {
		it.rootType[sym] = t
	}
	if it.ctx != nil {
		it.allocCtx[sym] = it.ctx.id
	}
	return raw("alloc", sym, 0, it.loopSyms(), nil)
}

// ---------- deep values ----------

func scalarType(t types.Type) bool {
	if t == nil || isAtomicType(t) {
		return true
	}
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// content is the sequence of elements of slice value v, as of now.
func (it *Interp) content(v *Term, elem types.Type) *Term {
	if v.op == "ite" {
		return mkIte(v.args[0], it.content(v.args[1], elem), it.content(v.args[2], elem))
	}
	var base, off, n *Term
	switch v.op {
	case "nil":
		return tEmpty
	case "slice":
		base, off, n = v.args[0], v.args[1], v.args[2]
	default:
		base, off, n = v, mkInt(0), mkLen(v)
	}
	root, path := locParts(base)
	entries := it.mem.log[rootKey(root)]
	any, simple := false, true
	for _, e := range entries {
		if !rootMay(e, root) {
			continue
		}
		any = true
		if len(e.vars) > 0 || e.barrier != "" || len(e.path) != 1 || e.path[0].op == "F" || len(path) > 0 {
			simple = false
		}
	}
	if root.op != "alloc" && !any {
		return it.deepSeq(mkSub(project(root, path), off, n), elem)
	}
	if root.op != "alloc" && simple && len(path) == 0 {
		cur := root
		for _, e := range entries {
			if !rootMay(e, root) {
				continue
			}
			i := e.path[0]
			val := e.val
			if val.op == "int" && isByteT(elem) {
				val = mkStr(string([]byte{byte(val.iv)}))
			} else {
				val = mkList(val)
			}
			l := mkLen(cur)
			p := mkCat(mkSub(cur, mkInt(0), i), val, mkSub(cur, addc(i, 1), addc(sub(l, i), -1)))
			cur = mkIte(simplify(e.guard, it.pc), p, cur)
		}
		return it.deepSeq(mkSub(cur, off, n), elem)
	}
	if n.isInt(0) {
		return tEmpty
	}
	if n.op == "int" && n.iv <= 8 && !scalarType(elem) {
		var vs []*Term
		for i := int64(0); i < int64(n.iv); i++ {
			vs = append(vs, it.deep(it.read(extend(base, addc(off, i)), elem), elem))
		}
		return mkList(vs...)
	}
	x := freshSym("x")
	rng[x] = [2]*Term{mkInt(0), addc(n, -1)}
	ev := it.deep(it.read(extend(base, add(off, x)), elem), elem)
	return closeBinder("seq", "", n, []*Term{x}, []*Term{ev})
}

func isByteT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (it *Interp) deepSeq(v *Term, elem types.Type) *Term {
	if scalarType(elem) {
		return v
	}
	switch v.op {
	case "ite":
		return mkIte(v.args[0], it.deepSeq(v.args[1], elem), it.deepSeq(v.args[2], elem))
	case "list":
		as := make([]*Term, len(v.args))
		for i, a := range v.args {
			as[i] = it.deep(a, elem)
		}
		return mkList(as...)
	case "cat":
		as := make([]*Term, len(v.args))
		for i, a := range v.args {
			as[i] = it.deepSeq(a, elem)
		}
		return mkCat(as...)
	case "seq":
		xs, b := openBinder(v)
		return closeBinder("seq", "", v.args[0], xs, []*Term{it.deep(b[0], elem)})
	}
	return v
}

// deep replaces references inside a value by what they refer to, as of now.
func (it *Interp) deep(v *Term, t types.Type) *Term {
	if t == nil || v == nil {
		return v
	}
	if v.op == "ite" {
		return mkIte(v.args[0], it.deep(v.args[1], t), it.deep(v.args[2], t))
	}
	if isAtomicType(t) {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return it.content(v, u.Elem())
	case *types.Array:
		return it.deepSeq(v, u.Elem())
	case *types.Pointer:
		if v.op != "loc" {
			if _, ok := u.Elem().Underlying().(*types.Struct); ok && !isAtomicType(u.Elem()) && v != tNil && v != tP {
				if len(it.mem.log[rootKey(v)]) > 0 {
					return it.deep(it.read(v, u.Elem()), u.Elem())
				}
			}
			return v
		}
		if isAtomicType(u.Elem()) {
			if typName(u.Elem()) == "bls.Fr" || typName(u.Elem()) == "bls.G1Point" {
				return it.read(v, u.Elem())
			}
			return v
		}
		return it.deep(it.read(v, u.Elem()), u.Elem())
	case *types.Struct:
		if v.op == "struct" {
			fs := structFields(u)
			if len(fs) == len(v.args) {
				var ns []string
				var vs []*Term
				for i, f := range fs {
					ns = append(ns, f.Name())
					vs = append(vs, it.deep(v.args[i], f.Type()))
				}
				return mkStruct(structName(v), ns, vs)
			}
		}
		return v
	case *types.Interface:
		if v.op == "loc" {
			if dt := it.dynType(v); dt != nil {
				return it.deep(v, types.NewPointer(dt))
			}
		}
		if v.op == "slice" {
			root, path := locParts(v.args[0])
			if dt := it.rootType[root.sym]; dt != nil && len(path) == 0 {
				if st, ok := dt.Underlying().(*types.Slice); ok {
					return it.deep(v, st)
				}
			}
		}
	}
	return v
}

func (it *Interp) dynType(v *Term) types.Type {
	r, path := locParts(v)
	if r.op == "alloc" && len(path) == 0 {
		return it.rootType[r.sym]
	}
	return nil
}

// ---------- frames and calls ----------

func (it *Interp) lookup(o types.Object) *Term {
	for f := it.fr; f != nil; f = f.parent {
		if l, ok := f.vars[o]; ok {
			return l
		}
	}
	return nil
}

func (it *Interp) declare(o types.Object, v *Term) {
	if o == nil {
		return
	}
	root := it.alloc(o.Name(), o.Pos(), o.Type())
	l := mkLoc(root)
	it.fr.vars[o] = l
	it.write(l, v, o.Type(), o.Pos())
}

func (it *Interp) typeOf(e ast.Expr) types.Type {
	return it.fr.info.TypeOf(e)
}

// callBody runs a function body with the given parameter values in a new frame.
func (it *Interp) callBody(name string, pkg *packages.Package, parent *Frame, sig *types.Signature, ft *ast.FuncType, recvField *ast.FieldList, body *ast.BlockStmt, recv *Term, args []*Term, cs string) []*Term {
	fr := &Frame{name: name, info: pkg.TypesInfo, pkg: pkg, parent: parent, vars: map[types.Object]*Term{}, cs: cs, sig: sig}
	saveFr := it.fr
	it.fr = fr
	start := it.pc
	if recvField != nil && len(recvField.List) > 0 && len(recvField.List[0].Names) > 0 {
		o := fr.info.Defs[recvField.List[0].Names[0]]
		it.declare(o, recv)
	}
	i := 0
	for _, f := range ft.Params.List {
		if len(f.Names) == 0 {
			i++
			continue
		}
		for _, n := range f.Names {
			if o := fr.info.Defs[n]; o != nil && i < len(args) {
				it.declare(o, args[i])
			}
			i++
		}
	}
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			for _, n := range f.Names {
				o := fr.info.Defs[n]
				if o != nil {
					it.declare(o, zero(o.Type()))
				}
				fr.named = append(fr.named, o)
			}
		}
	}
	it.block(body.List)
	if it.pc != tFalse {
		fr.rets = append(fr.rets, &ret{pc: it.pc, vals: it.namedVals()})
	}
	end := tFalse
	for _, r := range fr.rets {
		end = bOr(end, r.pc)
	}
	it.pc = end
	// deferred calls
	for j := len(fr.defers) - 1; j >= 0; j-- {
		fr.defers[j]()
	}
	nres := sig.Results().Len()
	var out []*Term
	for k := 0; k < nres; k++ {
		var v *Term
		for j := len(fr.rets) - 1; j >= 0; j-- {
			r := fr.rets[j]
			if k >= len(r.vals) {
				continue
			}
			rv := typed(r.vals[k], sig.Results().At(k).Type())
			if v == nil {
				v = rv
			} else {
				v = mkIte(relTo(r.pc, start), rv, v)
			}
		}
		if v == nil {
			v = raw("noret", name, int64(k), nil, nil)
		}
		out = append(out, simplify(v, it.pc))
	}
	it.fr = saveFr
	return out
}

// relTo simplifies the guard g under the assumption start.
func relTo(g, start *Term) *Term { return simplify(g, start) }

func (it *Interp) namedVals() []*Term {
	var vs []*Term
	for _, o := range it.fr.named {
		if l := it.fr.vars[o]; l != nil {
			vs = append(vs, it.peek(l, o.Type()))
		}
	}
	return vs
}

// callee resolves a call expression.
func (it *Interp) callee(call *ast.CallExpr) *types.Func {
	switch f := ast.Unparen(call.Fun).(type) {
	case *ast.Ident:
		fn, _ := it.fr.info.Uses[f].(*types.Func)
		return fn
	case *ast.SelectorExpr:
		fn, _ := it.fr.info.Uses[f.Sel].(*types.Func)
		return fn
	case *ast.IndexExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			fn, _ := it.fr.info.Uses[id].(*types.Func)
			return fn
		}
	}
	return nil
}

// funcName is the short qualified name of a function: pkg.Func or pkg.Type.Method.
func funcName(fn *types.Func) string {
	p := ""
	if fn.Pkg() != nil {
		p = fn.Pkg().Name() + "."
		if fn.Pkg().Name() == "bls" && !strings.HasPrefix(fn.Pkg().Path(), modPath) {
			p = "kbls."
		}
	}
	if sig, ok := fn.Type().(*types.Signature); ok && sig.Recv() != nil {
		t := sig.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return p + n.Obj().Name() + "." + fn.Name()
		}
		return p + "?." + fn.Name()
	}
	return p + fn.Name()
}

func inModule(fn *types.Func) bool {
	return fn.Pkg() != nil && strings.HasPrefix(fn.Pkg().Path(), modPath)
}

var csIntern = map[string]string{}

func (it *Interp) newCS(pos token.Pos) string {
	k := it.fr.cs + ">" + it.posStr(pos)
	if s, ok := csIntern[k]; ok {
		return s
	}
	s := fmt.Sprintf("c%d", len(csIntern)+1)
	csIntern[k] = s
	return s
}

func (it *Interp) evalArgs(call *ast.CallExpr, sig *types.Signature) ([]*Term, []types.Type) {
	var args []*Term
	var ts []types.Type
	if len(call.Args) == 1 {
		if tup, ok := it.typeOf(call.Args[0]).(*types.Tuple); ok {
			vs := it.evMulti(call.Args[0])
			for i := 0; i < tup.Len(); i++ {
				ts = append(ts, tup.At(i).Type())
				if i < len(vs) {
					args = append(args, vs[i])
				}
			}
			return args, ts
		}
	}
	for _, a := range call.Args {
		args = append(args, it.ev(a))
		ts = append(ts, it.typeOf(a))
	}
	return args, ts
}

func (it *Interp) packVariadic(call *ast.CallExpr, sig *types.Signature, args []*Term) []*Term {
	if sig == nil || !sig.Variadic() || call.Ellipsis.IsValid() {
		return args
	}
	np := sig.Params().Len()
	if len(args) < np-1 {
		return args
	}
	rest := args[np-1:]
	return append(append([]*Term{}, args[:np-1]...), mkList(rest...))
}

func (it *Interp) call(call *ast.CallExpr) []*Term {
	it.steps++
	if it.steps > 3000000 {
		panic("analysis does not converge")
	}
	fun := ast.Unparen(call.Fun)
	if tv, ok := it.fr.info.Types[fun]; ok && tv.IsType() {
		return []*Term{it.convert(it.ev(call.Args[0]), it.typeOf(call.Args[0]), tv.Type)}
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := it.fr.info.Uses[id].(*types.Builtin); ok {
			return it.builtin(b.Name(), call)
		}
	}
	fn := it.callee(call)
	if fn == nil { // a function value
		fv := it.ev(fun)
		sig, _ := it.typeOf(fun).Underlying().(*types.Signature)
		args, _ := it.evalArgs(call, sig)
		args = it.packVariadic(call, sig, args)
		return it.callValue(fv, sig, args, call.Pos(), call)
	}
	sig := fn.Type().(*types.Signature)
	var recv *Term
	var recvT types.Type
	if se, ok := fun.(*ast.SelectorExpr); ok && sig.Recv() != nil {
		if s, ok := it.fr.info.Selections[se]; ok && s.Kind() == types.MethodVal {
			recv, recvT = it.recvVal(se, s, sig)
		}
	}
	args, ts := it.evalArgs(call, sig)
	return it.callFn(fn, recv, recvT, args, ts, call.Pos(), call)
}

// recvVal evaluates the receiver of a method call, following embedded fields.
func (it *Interp) recvVal(se *ast.SelectorExpr, s *types.Selection, sig *types.Signature) (*Term, types.Type) {
	t := it.typeOf(se.X)
	_, wantPtr := sig.Recv().Type().(*types.Pointer)
	idx := s.Index()
	if len(idx) == 1 {
		if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
			v := it.ev(se.X)
			if !wantPtr && !types.IsInterface(sig.Recv().Type()) {
				return it.read(v, t.Underlying().(*types.Pointer).Elem()), sig.Recv().Type()
			}
			return v, t
		}
		if wantPtr {
			return it.addr(se.X), types.NewPointer(t)
		}
		return it.ev(se.X), t
	}
	p := it.ptrTo(se.X)
	cur := t
	if pt, ok := cur.Underlying().(*types.Pointer); ok {
		cur = pt.Elem()
	}
	for _, i := range idx[:len(idx)-1] {
		st := cur.Underlying().(*types.Struct)
		f := st.Field(i)
		p = extend(p, fieldElem(f.Name()))
		cur = f.Type()
		if pt, ok := cur.Underlying().(*types.Pointer); ok {
			p = it.read(p, cur)
			cur = pt.Elem()
		}
	}
	if wantPtr {
		return p, types.NewPointer(cur)
	}
	return it.read(p, cur), cur
}

// ptrTo gives a pointer to the struct denoted by e (e itself if it is a pointer).
func (it *Interp) ptrTo(e ast.Expr) *Term {
	if _, ok := it.typeOf(e).Underlying().(*types.Pointer); ok {
		return it.ev(e)
	}
	return it.addr(e)
}

func (it *Interp) callFn(fn *types.Func, recv *Term, recvT types.Type, args []*Term, ts []types.Type, pos token.Pos, call *ast.CallExpr) []*Term {
	name := funcName(fn)
	sig := fn.Type().(*types.Signature)
	if f, ok := intrinsics[name]; ok && !it.inlineToo[name] {
		if out, done := f(&Call{it: it, fn: fn, name: name, recv: recv, recvT: recvT, args: args, ts: ts, pos: pos, call: call}); done {
			return out
		}
	}
	if fi := it.prog.funcs[fn]; fi != nil && fi.decl.Body != nil && !it.opaque[name] {
		rec := 0
		for _, f := range it.stack {
			if f == fn {
				rec++
			}
		}
		if rec == 0 && len(it.stack) < 40 {
			it.stack = append(it.stack, fn)
			if call != nil {
				args = it.packVariadic(call, sig, args)
			}
			out := it.callBody(name, fi.pkg, nil, sig, fi.decl.Type, fi.decl.Recv, fi.decl.Body, recv, args, it.newCS(pos))
			it.stack = it.stack[:len(it.stack)-1]
			return out
		}
	}
	return it.unknownCall(name, sig, recv, recvT, args, ts, pos)
}

// unknownCall models a call whose body is not analysed: its results are functions of the deep
// arguments, and the variables whose address it receives are overwritten.
func (it *Interp) unknownCall(name string, sig *types.Signature, recv *Term, recvT types.Type, args []*Term, ts []types.Type, pos token.Pos) []*Term {
	var da []*Term
	if recv != nil {
		da = append(da, recv)
	}
	for i, a := range args {
		da = append(da, it.deep(a, ts[i]))
	}
	it.effect("call", name, pos, da...)
	base := raw("app", name, 0, da, nil)
	n := sig.Results().Len()
	var out []*Term
	for k := 0; k < n; k++ {
		v := base
		if n > 1 {
			v = raw("res", "", int64(k), []*Term{base}, nil)
		}
		out = append(out, typed(v, sig.Results().At(k).Type()))
	}
	for i, a := range args {
		if a.op == "loc" && ts[i] != nil {
			if pt, ok := ts[i].Underlying().(*types.Pointer); ok {
				it.write(a, raw("out", "", int64(i), []*Term{base}, nil), pt.Elem(), pos)
			}
		}
		if ts[i] == nil || !it.mayFill(name) {
			continue
		}
		if st, ok := ts[i].Underlying().(*types.Slice); ok {
			it.fillSlice(a, st.Elem(), raw("out", "", int64(i), []*Term{base}, nil), pos)
		}
	}
	return out
}

// mayFill: the function outside the module may write to the elements of a slice it is given.
func (it *Interp) mayFill(name string) bool {
	pk, _, _ := strings.Cut(name, ".")
	switch pk {
	case "strings", "strconv", "fmt", "log", "errors", "flag", "os", "time", "bytes", "filepath", "path", "net", "utf8", "unicode", "hex", "sha256", "sha512", "sha3", "math":
		return pk == "hex" && !strings.HasSuffix(name, "String")
	}
	return it.prog.names[name] == nil
}

// fillSlice replaces every element of the slice s by that of the unknown sequence v.
func (it *Interp) fillSlice(s *Term, et types.Type, v *Term, pos token.Pos) {
	if s.op == "ite" {
		save := it.pc
		it.pc = bAnd(save, s.args[0])
		it.fillSlice(s.args[1], et, v, pos)
		it.pc = bAnd(save, bNot(s.args[0]))
		it.fillSlice(s.args[2], et, v, pos)
		it.pc = save
		return
	}
	n := mkLen(s)
	if it.pc == tFalse || n.isInt(0) {
		return
	}
	x := freshSym("c")
	rng[x] = [2]*Term{mkInt(0), addc(n, -1)}
	root, path := locParts(elemLoc(s, x))
	it.seq++
	it.mem.push(&Entry{vars: []QVar{{x, n}}, root: root, path: path, guard: it.pc, val: mkSel(v, x), typ: et, pos: pos, ctx: it.ctx, seq: it.seq, held: it.heldNow(), inl: it.loopSyms()})
}

func (it *Interp) callValue(fv *Term, sig *types.Signature, args []*Term, pos token.Pos, call *ast.CallExpr) []*Term {
	if fv.op == "ite" {
		save := it.pc
		it.pc = bAnd(save, fv.args[0])
		hi := it.callValue(simplify(fv.args[1], it.pc), sig, args, pos, call)
		p1 := it.pc
		it.pc = bAnd(save, bNot(fv.args[0]))
		lo := it.callValue(simplify(fv.args[2], it.pc), sig, args, pos, call)
		it.pc = bOr(p1, it.pc)
		var out []*Term
		for i := range hi {
			out = append(out, mkIte(fv.args[0], hi[i], lo[i]))
		}
		return out
	}
	if fv.op == "closure" {
		c := it.closures[fv.sym]
		if c.fn != nil {
			var ts []types.Type
			s := c.fn.Type().(*types.Signature)
			for i := range args {
				if i < s.Params().Len() {
					ts = append(ts, s.Params().At(i).Type())
				} else {
					ts = append(ts, nil)
				}
			}
			return it.callFn(c.fn, c.recv, nil, args, ts, pos, nil)
		}
		if len(it.stack) < 60 {
			it.stack = append(it.stack, nil)
			out := it.callBody(c.fr.name, c.fr.pkg, c.fr, sig, c.lit.Type, nil, c.lit.Body, nil, args, it.newCS(pos))
			it.stack = it.stack[:len(it.stack)-1]
			return out
		}
	}
	it.effect("callvalue", "", pos, append([]*Term{fv}, args...)...)
	var out []*Term
	if sig != nil {
		for k := 0; k < sig.Results().Len(); k++ {
			out = append(out, typed(raw("res", "", int64(k), append([]*Term{fv}, args...), nil), sig.Results().At(k).Type()))
		}
	}
	return out
}

// ---------- expressions ----------

func (it *Interp) evMulti(e ast.Expr) []*Term {
	switch x := ast.Unparen(e).(type) {
	case *ast.CallExpr:
		return it.call(x)
	}
	return []*Term{it.ev(e)}
}

func constTerm(v constant.Value, t types.Type) *Term {
	switch v.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(v))
	case constant.Int:
		// large constants are opaque: sums of them would not fit
		if i, ok := constant.Int64Val(v); ok && i < 1<<60 && i > -1<<60 {
			return mkInt(i)
		}
		low, _ := constant.Int64Val(constant.BinaryOp(v, token.AND, constant.MakeInt64(0xffff)))
		return addc(raw("bigint", constant.BinaryOp(v, token.SUB, constant.MakeInt64(low)).ExactString(), 0, nil, nil), low)
	case constant.String:
		s := constant.StringVal(v)
		if s == "" {
			return tEmpty
		}
		return mkStr(s)
	case constant.Float:
		if i, ok := constant.Int64Val(constant.ToInt(v)); ok {
			return mkInt(i)
		}
	}
	return raw("const", v.ExactString(), 0, nil, nil)
}

func (it *Interp) ev(e ast.Expr) *Term {
	it.curPos = e.Pos()
	if tv, ok := it.fr.info.Types[e]; ok && tv.Value != nil {
		return constTerm(tv.Value, tv.Type)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return it.ev(x.X)
	case *ast.BasicLit:
		return raw("lit", x.Value, 0, nil, nil)
	case *ast.Ident:
		if x.Name == "_" {
			return tUnit
		}
		switch o := it.fr.info.ObjectOf(x).(type) {
		case *types.Nil:
			return tNil
		case *types.Func:
			return it.mkClosure(&closure{fn: o}, "f:"+o.FullName())
		case *types.Var:
			return it.read(it.addr(x), o.Type())
		}
	case *ast.FuncLit:
		return it.mkClosure(&closure{lit: x, fr: it.fr}, it.fr.cs+"/"+it.posStr(x.Pos()))
	case *ast.SelectorExpr:
		if s, ok := it.fr.info.Selections[x]; ok {
			if s.Kind() == types.FieldVal {
				if it.addressable(x.X) || isPtr(it.typeOf(x.X)) {
					return it.read(it.addr(x), it.typeOf(x))
				}
				v := it.ev(x.X)
				return typed(mkFld(v, x.Sel.Name), it.typeOf(x))
			}
			fn := s.Obj().(*types.Func)
			r, _ := it.recvVal(x, s, fn.Type().(*types.Signature))
			return it.mkClosure(&closure{fn: fn, recv: r}, fmt.Sprintf("m:%s:%d", fn.FullName(), r.id))
		}
		switch o := it.fr.info.Uses[x.Sel].(type) {
		case *types.Var:
			return it.read(it.addr(x), o.Type())
		case *types.Func:
			return it.mkClosure(&closure{fn: o}, "f:"+o.FullName())
		}
	case *ast.StarExpr:
		return it.read(it.ev(x.X), it.typeOf(e))
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			return it.addr(x.X)
		case token.NOT:
			return bNot(asBool(it.ev(x.X)))
		case token.SUB:
			return mulc(it.ev(x.X), -1)
		case token.ADD:
			return it.ev(x.X)
		case token.ARROW:
			return it.recvFrom(it.ev(x.X), x.Pos(), it.typeOf(e))
		}
		return mk("unop", x.Op.String(), it.ev(x.X))
	case *ast.BinaryExpr:
		return it.binary(x)
	case *ast.IndexExpr:
		return it.indexExpr(x)
	case *ast.SliceExpr:
		return it.sliceExpr(x)
	case *ast.CompositeLit:
		return it.composite(x, it.typeOf(e))
	case *ast.TypeAssertExpr:
		return it.ev(x.X)
	case *ast.CallExpr:
		r := it.call(x)
		if len(r) == 0 {
			return tUnit
		}
		return r[0]
	case *ast.KeyValueExpr:
		return it.ev(x.Value)
	}
	it.note("expression %T at %s not modelled", e, it.posStr(e.Pos()))
	return raw("expr", it.posStr(e.Pos()), 0, nil, nil)
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (it *Interp) mkClosure(c *closure, id string) *Term {
	it.closures[id] = c
	return raw("closure", id, 0, nil, nil)
}

func (it *Interp) addressable(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		_, ok := it.fr.info.ObjectOf(x).(*types.Var)
		return ok
	case *ast.SelectorExpr:
		if _, ok := it.fr.info.Selections[x]; !ok {
			_, ok := it.fr.info.Uses[x.Sel].(*types.Var)
			return ok
		}
		return isPtr(it.typeOf(x.X)) || it.addressable(x.X)
	case *ast.IndexExpr:
		switch it.typeOf(x.X).Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Map:
			return true
		case *types.Array:
			return it.addressable(x.X)
		}
	case *ast.StarExpr:
		return true
	}
	return false
}

// addr gives the location of an addressable expression (or of a fresh copy of a value).
func (it *Interp) addr(e ast.Expr) *Term {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		o := it.fr.info.ObjectOf(x)
		if v, ok := o.(*types.Var); ok {
			if l := it.lookup(v); l != nil {
				return l
			}
			if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				return globalLoc(v)
			}
			// captured variable of an unanalysed frame
			return mkSym("v:" + v.Name())
		}
	case *ast.SelectorExpr:
		s, ok := it.fr.info.Selections[x]
		if !ok {
			if v, ok := it.fr.info.Uses[x.Sel].(*types.Var); ok {
				return globalLoc(v)
			}
			break
		}
		if s.Kind() != types.FieldVal {
			break
		}
		p := it.ptrTo(x.X)
		cur := it.typeOf(x.X)
		if pt, ok := cur.Underlying().(*types.Pointer); ok {
			if p.op == "fld" || p.op == "res" || p.op == "ite" || p.op == "nil" {
				it.effect("deref", "", x.Pos(), p)
			}
			cur = pt.Elem()
		}
		idx := s.Index()
		for n, i := range idx {
			st := cur.Underlying().(*types.Struct)
			f := st.Field(i)
			p = extend(p, fieldElem(f.Name()))
			cur = f.Type()
			if pt, ok := cur.Underlying().(*types.Pointer); ok && n < len(idx)-1 {
				p = it.read(p, cur)
				cur = pt.Elem()
			}
		}
		return p
	case *ast.IndexExpr:
		switch it.typeOf(x.X).Underlying().(type) {
		case *types.Map:
			m := it.ev(x.X)
			return extend(m, it.mapKey(x.Index))
		case *types.Slice:
			s := it.ev(x.X)
			i := it.ev(x.Index)
			it.indexEffect(s, i, x)
			return elemLoc(s, i)
		case *types.Pointer:
			return extend(it.ev(x.X), it.ev(x.Index))
		case *types.Array:
			return extend(it.addr(x.X), it.ev(x.Index))
		}
	case *ast.StarExpr:
		return it.ev(x.X)
	case *ast.CompositeLit:
		t := it.typeOf(x)
		v := it.composite(x, t)
		root := it.alloc("lit", x.Pos(), t)
		l := mkLoc(root)
		it.write(l, v, t, x.Pos())
		return l
	}
	t := it.typeOf(e)
	v := it.ev(e)
	root := it.alloc("tmp", e.Pos(), t)
	l := mkLoc(root)
	it.write(l, v, t, e.Pos())
	return l
}

func (it *Interp) mapKey(e ast.Expr) *Term { return it.deep(it.ev(e), it.typeOf(e)) }

// indexEffect records an element access of data whose length the program does not control.
func (it *Interp) indexEffect(s, i *Term, x *ast.IndexExpr) {
	it.effect("index", "", x.Pos(), s, i)
}

var globalConst = map[string]*Term{
	"bls.ZERO": tFr0, "bls.ONE": tFr1, "bls.ZeroG1": tG0, "bls.ZERO_G1": tG0, "bls.GenG1": tGen,
}

// rawGlobals: the constants of package bls are ordinary variables (while their initialisation is analysed).
var rawGlobals bool

func globalLoc(v *types.Var) *Term {
	n := v.Name()
	if v.Pkg() != nil {
		n = v.Pkg().Name() + "." + n
	}
	if c, ok := globalConst[n]; ok && !rawGlobals {
		return raw("gconst", n, 0, []*Term{c}, nil)
	}
	return mkSym("g:" + n)
}

func (it *Interp) indexExpr(x *ast.IndexExpr) *Term {
	t := it.typeOf(x)
	switch u := it.typeOf(x.X).Underlying().(type) {
	case *types.Map:
		m := it.ev(x.X)
		return it.read(extend(m, it.mapKey(x.Index)), u.Elem())
	case *types.Slice:
		s, i := it.ev(x.X), it.ev(x.Index)
		it.indexEffect(s, i, x)
		v := it.read(elemLoc(s, i), t)
		if v.op == "ite" {
			v = simplify(v, bAnd(ge0(i), ge0(addc(sub(mkLen(s), i), -1)))) // the access panics otherwise
		}
		return v
	case *types.Pointer:
		return it.read(it.addr(x), t)
	case *types.Array:
		if it.addressable(x.X) {
			return it.read(it.addr(x), t)
		}
		return typed(mkSel(it.ev(x.X), it.ev(x.Index)), t)
	case *types.Basic:
		s, i := it.ev(x.X), it.ev(x.Index)
		it.indexEffect(s, i, x)
		return mkSel(s, i)
	}
	// generic function instantiation
	return it.ev(x.X)
}

func (it *Interp) sliceExpr(x *ast.SliceExpr) *Term {
	t := it.typeOf(x.X).Underlying()
	lo := mkInt(0)
	if x.Low != nil {
		lo = it.ev(x.Low)
	}
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := it.ev(x.X)
		hi := mkLen(s)
		if x.High != nil {
			hi = it.ev(x.High)
		}
		it.effect("slicing", "", x.Pos(), s, lo, hi)
		return mkSub(s, lo, sub(hi, lo))
	}
	var base *Term
	off := mkInt(0)
	var n *Term
	switch u := t.(type) {
	case *types.Array:
		base, n = it.addr(x.X), mkInt(u.Len())
	case *types.Pointer:
		base, n = it.ev(x.X), mkInt(u.Elem().Underlying().(*types.Array).Len())
	default:
		s := it.ev(x.X)
		hi := (*Term)(nil)
		if x.High != nil {
			hi = it.ev(x.High)
		}
		if x.Low != nil || x.High != nil {
			h := hi
			if h == nil {
				h = mkLen(s)
			}
			it.effect("slicing", "", x.Pos(), s, lo, h)
		}
		return it.subslice(s, lo, hi)
	}
	hi := n
	if x.High != nil {
		hi = it.ev(x.High)
	}
	return mkSlice(base, add(off, lo), sub(hi, lo))
}

func (it *Interp) subslice(s, lo, hi *Term) *Term {
	if s.op == "ite" {
		return mkIte(s.args[0], it.subslice(s.args[1], lo, hi), it.subslice(s.args[2], lo, hi))
	}
	if s.op == "slice" {
		n := s.args[2]
		if hi == nil {
			hi = n
		}
		return mkSlice(s.args[0], add(s.args[1], lo), sub(hi, lo))
	}
	if hi == nil {
		hi = mkLen(s)
	}
	if lo.isInt(0) && hi == mkLen(s) {
		return s
	}
	return mkSlice(s, lo, sub(hi, lo))
}

func (it *Interp) binary(x *ast.BinaryExpr) *Term {
	switch x.Op {
	case token.LAND:
		a := asBool(it.ev(x.X))
		save := it.pc
		it.pc = bAnd(save, a)
		b := asBool(it.ev(x.Y))
		it.pc = save
		return bAnd(a, b)
	case token.LOR:
		a := asBool(it.ev(x.X))
		save := it.pc
		it.pc = bAnd(save, bNot(a))
		b := asBool(it.ev(x.Y))
		it.pc = save
		return bOr(a, b)
	}
	a, b := it.ev(x.X), it.ev(x.Y)
	return it.binop(x.Op, a, b, it.typeOf(x.X), it.typeOf(x.Y))
}

func isIntT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isStringT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (it *Interp) binop(op token.Token, a, b *Term, ta, tb types.Type) *Term {
	if isStringT(ta) && op == token.ADD {
		return mkCat(a, b)
	}
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		da, db := it.deepForEq(a, ta), it.deepForEq(b, tb)
		r = mkEq(da, db)
		if op == token.NEQ {
			r = bNot(r)
		}
		return r
	}
	if isIntT(ta) {
		switch op {
		case token.ADD:
			return add(a, b)
		case token.SUB:
			return sub(a, b)
		case token.MUL:
			return mulInt(a, b)
		case token.LSS:
			return ge0(addc(sub(b, a), -1))
		case token.LEQ:
			return ge0(sub(b, a))
		case token.GTR:
			return ge0(addc(sub(a, b), -1))
		case token.GEQ:
			return ge0(sub(a, b))
		case token.REM:
			return mk("mod", "", a, b)
		case token.QUO:
			if a.op == "int" && b.op == "int" && b.iv != 0 {
				return mkInt(a.iv / b.iv)
			}
			if b.isInt(1) {
				return a
			}
			return mk("quo", "", a, b)
		case token.SHL:
			if a.op == "int" && b.op == "int" && b.iv < 40 {
				return mkInt(a.iv << uint(b.iv))
			}
			if b.op == "int" && b.iv < 40 {
				return mulc(a, 1<<uint(b.iv))
			}
		case token.SHR:
			if b.op == "int" && b.iv < 40 {
				return mk("quo", "", a, mkInt(1<<uint(b.iv)))
			}
		}
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR {
			return asBool(mk("app", "<", b, a))
		}
		if op == token.GEQ {
			return bNot(asBool(mk("app", "<", a, b)))
		}
		if op == token.LEQ {
			return bNot(asBool(mk("app", "<", b, a)))
		}
		return asBool(mk("app", "<", a, b))
	}
	return mk("binop", op.String(), a, b)
}

func (it *Interp) deepForEq(v *Term, t types.Type) *Term {
	if t == nil {
		return v
	}
	switch t.Underlying().(type) {
	case *types.Array, *types.Struct:
		return it.deep(v, t)
	}
	return v
}

func (it *Interp) convert(v *Term, from, to types.Type) *Term {
	if v.op == "int" {
		if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return mkInt(v.iv & 255)
		}
		if isStringT(to) && isIntT(from) {
			return mkStr(string(rune(v.iv)))
		}
		return v
	}
	if b, ok := to.Underlying().(*types.Basic); ok && isIntT(from) {
		switch b.Kind() {
		case types.Uint8, types.Int8, types.Uint16, types.Int16:
			if fb := from.Underlying().(*types.Basic); fb.Kind() == b.Kind() {
				return v
			}
			return mk("trunc", b.Name(), v)
		}
	}
	fb, tb := isByteSeq(from), isByteSeq(to)
	if fb && tb {
		if isStringT(from) != isStringT(to) || from.Underlying() != to.Underlying() {
			return it.deep(v, from)
		}
	}
	return v
}

// composite evaluates a composite literal to a value.
func (it *Interp) composite(x *ast.CompositeLit, t types.Type) *Term {
	if p, ok := t.Underlying().(*types.Pointer); ok { // elided &T in a nested literal
		v := it.composite(x, p.Elem())
		root := it.alloc("lit", x.Pos(), p.Elem())
		it.write(mkLoc(root), v, p.Elem(), x.Pos())
		return mkLoc(root)
	}
	ev := func(e ast.Expr, et types.Type) *Term {
		if c, ok := e.(*ast.CompositeLit); ok && c.Type == nil {
			return it.composite(c, et)
		}
		return it.ev(e)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if isAtomicType(t) {
			if len(x.Elts) == 0 {
				return zero(t)
			}
			return raw("lit", it.posStr(x.Pos()), 0, nil, nil)
		}
		vals := map[string]*Term{}
		for i, e := range x.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				n := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == n {
						vals[n] = ev(kv.Value, u.Field(j).Type())
					}
				}
			} else {
				vals[u.Field(i).Name()] = ev(e, u.Field(i).Type())
			}
		}
		var ns []string
		var vs []*Term
		for _, f := range structFields(u) {
			ns = append(ns, f.Name())
			if v, ok := vals[f.Name()]; ok {
				vs = append(vs, typed(v, f.Type()))
			} else {
				vs = append(vs, zero(f.Type()))
			}
		}
		return mkStruct(typName(t), ns, vs)
	case *types.Slice, *types.Array:
		var et types.Type
		isArr := false
		if s, ok := u.(*types.Slice); ok {
			et = s.Elem()
		} else {
			et = u.(*types.Array).Elem()
			isArr = true
		}
		idx := int64(0)
		max := int64(0)
		els := map[int64]*Term{}
		for _, e := range x.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				if c := it.ev(kv.Key); c.op == "int" {
					idx = c.iv
				}
				e = kv.Value
			}
			els[idx] = ev(e, et)
			idx++
			if idx > max {
				max = idx
			}
		}
		if isArr {
			max = u.(*types.Array).Len()
			if len(els) == 0 {
				return zero(t)
			}
		}
		if max > 512 {
			return raw("lit", it.posStr(x.Pos()), 0, nil, nil)
		}
		var xs []*Term
		for i := int64(0); i < max; i++ {
			if v, ok := els[i]; ok {
				xs = append(xs, typed(v, et))
			} else {
				xs = append(xs, zero(et))
			}
		}
		v := seqOf(xs, et)
		if isArr {
			return v
		}
		if max == 0 {
			return tEmpty
		}
		// a fresh backing array
		root := it.alloc("slit", x.Pos(), types.NewArray(et, max))
		it.write(mkLoc(root), v, types.NewArray(et, max), x.Pos())
		return mkSlice(mkLoc(root), mkInt(0), mkInt(max))
	case *types.Map:
		root := it.alloc("map", x.Pos(), t)
		l := mkLoc(root)
		for _, e := range x.Elts {
			kv := e.(*ast.KeyValueExpr)
			k := it.deep(ev(kv.Key, u.Key()), u.Key())
			it.mapStore(l, k, ev(kv.Value, u.Elem()), t, e.Pos())
		}
		return l
	}
	return raw("lit", it.posStr(x.Pos()), 0, nil, nil)
}

// seqOf builds a sequence value from its elements; constant bytes become a string.
func seqOf(xs []*Term, et types.Type) *Term {
	if len(xs) == 0 {
		return tEmpty
	}
	if isByteT(et) {
		b := make([]byte, len(xs))
		ok := true
		for i, x := range xs {
			if x.op != "int" {
				ok = false
				break
			}
			b[i] = byte(x.iv)
		}
		if ok {
			return mkStr(string(b))
		}
		var parts []*Term
		for _, x := range xs {
			if x.op == "int" {
				parts = append(parts, mkStr(string([]byte{byte(x.iv)})))
			} else {
				parts = append(parts, mkList(x))
			}
		}
		return mkCat(parts...)
	}
	return mkList(xs...)
}

func (it *Interp) mapStore(m, k, v *Term, mt types.Type, pos token.Pos) {
	it.write(extend(m, k), v, mt.Underlying().(*types.Map).Elem(), pos)
	if it.prog.isSized(mt) {
		h := it.read(extend(extend(m, tH), k), types.Typ[types.Bool])
		n := it.read(extend(m, tSize), types.Typ[types.Uint])
		it.write(extend(m, tSize), mkIte(asBool(h), n, addc(n, 1)), types.Typ[types.Uint], pos)
	}
	it.write(extend(extend(m, tH), k), tTrue, types.Typ[types.Bool], pos)
}

func (it *Interp) recvFrom(ch *Term, pos token.Pos, t types.Type) *Term {
	v := mk("recv", it.fr.cs+":"+it.posStr(pos), append([]*Term{ch}, it.loopSyms()...)...)
	v = typed(v, t)
	it.effect("recv", "", pos, ch, v)
	return v
}

// ---------- builtins ----------

func (it *Interp) builtin(name string, call *ast.CallExpr) []*Term {
	switch name {
	case "len", "cap":
		t := it.typeOf(call.Args[0]).Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if a, ok := t.(*types.Array); ok {
			return []*Term{mkInt(a.Len())}
		}
		v := it.ev(call.Args[0])
		if _, ok := t.(*types.Map); ok {
			if tt := it.typeOf(call.Args[0]); it.prog.isSized(tt) && v != tNil {
				return []*Term{it.read(extend(v, tSize), types.Typ[types.Uint])}
			}
			return []*Term{it.mapLen(v)}
		}
		return []*Term{mkLen(v)}
	case "make":
		t := it.typeOf(call)
		switch t.Underlying().(type) {
		case *types.Slice:
			n := it.ev(call.Args[1])
			for _, a := range call.Args[2:] {
				it.ev(a)
			}
			if n.isInt(0) {
				return []*Term{tEmpty}
			}
			root := it.alloc("make", call.Pos(), t)
			return []*Term{mkSlice(mkLoc(root), mkInt(0), n)}
		case *types.Chan:
			c := mkInt(0)
			if len(call.Args) > 1 {
				c = it.ev(call.Args[1])
			}
			root := it.alloc("chan", call.Pos(), t)
			it.effect("mkchan", "", call.Pos(), mkLoc(root), c)
			return []*Term{mkLoc(root)}
		}
		for _, a := range call.Args[1:] {
			it.ev(a)
		}
		return []*Term{mkLoc(it.alloc("map", call.Pos(), t))}
	case "new":
		t := it.typeOf(call).Underlying().(*types.Pointer).Elem()
		root := it.alloc("new", call.Pos(), t)
		l := mkLoc(root)
		it.write(l, zero(t), t, call.Pos())
		return []*Term{l}
	case "append":
		t := it.typeOf(call).Underlying().(*types.Slice)
		b := it.shallow(it.ev(call.Args[0]), t.Elem())
		if call.Ellipsis.IsValid() {
			x := it.ev(call.Args[1])
			var c *Term
			if isStringT(it.typeOf(call.Args[1])) {
				c = x
			} else {
				c = it.shallow(x, t.Elem())
			}
			return []*Term{mkCat(b, c)}
		}
		var xs []*Term
		for _, a := range call.Args[1:] {
			xs = append(xs, typed(it.ev(a), t.Elem()))
		}
		return []*Term{mkCat(b, seqOf(xs, t.Elem()))}
	case "copy":
		dst := it.ev(call.Args[0])
		src := it.ev(call.Args[1])
		it.copySlice(dst, src, it.typeOf(call.Args[0]), it.typeOf(call.Args[1]), call.Pos())
		return []*Term{mkInt(0)}
	case "panic":
		it.effect("fatal", "panic", call.Pos(), it.ev(call.Args[0]))
		it.pc = tFalse
		return nil
	case "close":
		it.effect("close", "", call.Pos(), it.ev(call.Args[0]))
		return nil
	case "delete":
		m := it.ev(call.Args[0])
		k := it.mapKey(call.Args[1])
		mt := it.typeOf(call.Args[0])
		et := mt.Underlying().(*types.Map).Elem()
		if it.prog.isSized(mt) {
			h := it.read(extend(extend(m, tH), k), types.Typ[types.Bool])
			n := it.read(extend(m, tSize), types.Typ[types.Uint])
			it.write(extend(m, tSize), mkIte(asBool(h), addc(n, -1), n), types.Typ[types.Uint], call.Pos())
		}
		it.write(extend(m, k), zero(et), et, call.Pos())
		it.write(extend(extend(m, tH), k), tFalse, types.Typ[types.Bool], call.Pos())
		return nil
	case "min", "max":
		a := it.ev(call.Args[0])
		for _, y := range call.Args[1:] {
			b := it.ev(y)
			c := ge0(sub(b, a)) // b >= a
			if name == "min" {
				a = mkIte(c, a, b)
			} else {
				a = mkIte(c, b, a)
			}
		}
		return []*Term{a}
	case "recover":
		return []*Term{tNil}
	}
	for _, a := range call.Args {
		it.ev(a)
	}
	return []*Term{tUnit}
}

// tSize stands for the number of entries of a map, kept as a part of it.
var tSize = fieldElem("#size")

func (p *Prog) isSized(mt types.Type) bool { return p.sized[types.TypeString(mt.Underlying(), nil)] }

// openChan tells whether m was received from a channel that was not closed.
func (it *Interp) openChan(m *Term, elem types.Type) *Term {
	if !it.prog.closed[types.TypeString(elem, nil)] {
		return tTrue
	}
	return asBool(mk("app", "open", m))
}

func (it *Interp) mapLen(m *Term) *Term {
	t := raw("maplen", "", 0, []*Term{m}, nil)
	nonneg[t] = true
	return t
}

// shallow is the element sequence of a slice without following the references of its elements.
func (it *Interp) shallow(v *Term, elem types.Type) *Term {
	if scalarType(elem) {
		return it.content(v, elem)
	}
	if v.op == "ite" {
		return mkIte(v.args[0], it.shallow(v.args[1], elem), it.shallow(v.args[2], elem))
	}
	switch v.op {
	case "nil":
		return tEmpty
	case "slice":
		x := freshSym("x")
		n := v.args[2]
		rng[x] = [2]*Term{mkInt(0), addc(n, -1)}
		e := it.read(elemLoc(v, x), elem)
		return closeBinder("seq", "", n, []*Term{x}, []*Term{e})
	}
	return v
}

func minTerm(a, b *Term) *Term {
	if provGe0(sub(b, a)) {
		return a
	}
	if provGe0(sub(a, b)) {
		return b
	}
	return mkIte(ge0(sub(b, a)), a, b)
}

func (it *Interp) copySlice(dst, src *Term, dt, st types.Type, pos token.Pos) {
	var et types.Type = types.Typ[types.Uint8]
	if s, ok := dt.Underlying().(*types.Slice); ok {
		et = s.Elem()
	}
	if dst.op == "ite" {
		save := it.pc
		it.pc = bAnd(save, dst.args[0])
		it.copySlice(dst.args[1], src, dt, st, pos)
		it.pc = bAnd(save, bNot(dst.args[0]))
		it.copySlice(dst.args[2], src, dt, st, pos)
		it.pc = save
		return
	}
	if it.pc == tFalse {
		return
	}
	nd := mkLen(dst)
	var c *Term
	if isStringT(st) {
		c = src
	} else {
		c = it.shallow(src, et)
	}
	ns := mkLen(c)
	x := freshSym("c")
	n := nd
	guard := it.pc
	if provGe0(sub(nd, ns)) || implies(it.pc, ge0(sub(nd, ns))) {
		n = ns
	} else if !(provGe0(sub(ns, nd)) || implies(it.pc, ge0(sub(ns, nd)))) {
		rng[x] = [2]*Term{mkInt(0), addc(nd, -1)}
		guard = bAnd(guard, ge0(addc(sub(ns, x), -1)))
	}
	rng[x] = [2]*Term{mkInt(0), addc(n, -1)}
	l := elemLoc(dst, x)
	root, path := locParts(l)
	it.seq++
	it.mem.push(&Entry{vars: []QVar{{x, n}}, root: root, path: path, guard: guard, val: mkSel(c, x), typ: et, pos: pos, ctx: it.ctx, seq: it.seq, held: it.heldNow(), inl: it.loopSyms()})
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

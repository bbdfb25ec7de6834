package main

import (
	"go/token"
	"go/types"
	"strings"
)

// QVar is a quantified index of a write or effect: Sym ranges over [0,N).
type QVar struct {
	Sym, N *Term
}

// Entry is a write (or a barrier standing for the writes of other iterations / goroutines).
type Entry struct {
	vars  []QVar
	root  *Term
	path  []*Term
	guard *Term
	val   *Term
	typ   types.Type
	pos   token.Pos
	ctx   *Ctx
	seq   int
	held  []*Term
	rmw   bool
	inl   []*Term // iteration symbols of the loops around the write

	barrier string // "" | "mu" | "shared"
	bid     string
	kvar    *Term // mu: the loop's own iteration symbol (other iterations k' < k)
	self    []*Term
	key     string
}

type Mem struct {
	log     map[string][]*Entry
	journal []string
	jent    []*Entry
}

func (m *Mem) clone() *Mem {
	c := &Mem{log: map[string][]*Entry{}}
	for k, l := range m.log {
		c.log[k] = append([]*Entry{}, l...)
	}
	return c
}

func newMem() *Mem { return &Mem{log: map[string][]*Entry{}} }

func rootKey(r *Term) string {
	switch r.op {
	case "alloc":
		return "a:" + r.sym
	case "sym":
		return "s:" + r.sym
	}
	return "o:" + r.op + ":" + r.sym
}

// at returns the i-th entry of the journal.
func (m *Mem) at(i int) *Entry { return m.jent[i] }

func (m *Mem) push(e *Entry) {
	e.key = rootKey(e.root)
	m.log[e.key] = append(m.log[e.key], e)
	m.journal = append(m.journal, e.key)
	m.jent = append(m.jent, e)
}

// popTo removes the entries pushed since mark and returns them in order.
func (m *Mem) popTo(mark int) []*Entry {
	var out []*Entry
	for i := len(m.journal) - 1; i >= mark; i-- {
		k := m.journal[i]
		l := m.log[k]
		out = append(out, l[len(l)-1])
		m.log[k] = l[:len(l)-1]
	}
	m.journal = m.journal[:mark]
	m.jent = m.jent[:mark]
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---------- locations ----------

func fieldElem(f string) *Term { return raw("F", f, 0, nil, nil) }

func mkLoc(root *Term, path ...*Term) *Term {
	if len(path) == 0 && root.op != "alloc" {
		return root
	}
	return raw("loc", "", 0, append([]*Term{root}, path...), nil)
}

func locParts(p *Term) (*Term, []*Term) {
	if p.op == "loc" {
		return p.args[0], p.args[1:]
	}
	return p, nil
}

// extend adds a path element to a pointer.
func extend(p, elem *Term) *Term {
	if p.op == "ite" || elem.op == "ite" {
		return lift([]*Term{p, elem}, func(x []*Term) *Term { return extend(x[0], x[1]) })
	}
	r, path := locParts(p)
	return mkLoc(r, append(append([]*Term{}, path...), elem)...)
}

func mkSlice(base, off, n *Term) *Term {
	if base.op == "ite" || off.op == "ite" || n.op == "ite" {
		return lift([]*Term{base, off, n}, func(x []*Term) *Term { return mkSlice(x[0], x[1], x[2]) })
	}
	return raw("slice", "", 0, []*Term{base, off, n}, nil)
}

// elemLoc is the address of element i of the slice (or pointer-to-array, or map) value s.
func elemLoc(s, i *Term) *Term {
	if s.op == "ite" || i.op == "ite" {
		return lift([]*Term{s, i}, func(x []*Term) *Term { return elemLoc(x[0], x[1]) })
	}
	switch s.op {
	case "slice":
		return extend(s.args[0], add(s.args[1], i))
	case "sub":
		return elemLoc(s.args[0], add(s.args[1], i))
	}
	return extend(s, i)
}

// project selects the component of a value along a path.
func project(v *Term, path []*Term) *Term {
	for _, e := range path {
		if e.op == "F" {
			v = mkFld(v, e.sym)
		} else {
			v = mkSel(v, e)
		}
	}
	return v
}

// ---------- matching ----------

type matcher struct {
	vars map[*Term]*Term // unsolved variables -> range length
	sub  map[*Term]*Term
	cond *Term
	unk  bool
}

func (mt *matcher) hasVars(t *Term) bool {
	for v := range mt.vars {
		if _, ok := mt.sub[v]; !ok && containsTerm(t, v) {
			return true
		}
	}
	return false
}

func (mt *matcher) apply(t *Term) *Term {
	if len(mt.sub) == 0 {
		return t
	}
	return subst(t, mt.sub)
}

func (mt *matcher) solve(v, s *Term) bool {
	if s.op == "ite" {
		mt.unk = true
		return true
	}
	n := mt.vars[v]
	mt.sub[v] = s
	n = mt.apply(n)
	mt.cond = bAnd(mt.cond, ge0(s))
	if n != tOmega {
		mt.cond = bAnd(mt.cond, ge0(addc(sub(n, s), -1)))
	}
	return mt.cond != tFalse
}

// index matches an index/key expression; returns false if it cannot be equal.
func (mt *matcher) index(p, t *Term) bool {
	p = mt.apply(p)
	if p == t && !mt.hasVars(p) {
		return true
	}
	if !mt.hasVars(p) {
		mt.cond = bAnd(mt.cond, mkEq(p, t))
		return mt.cond != tFalse
	}
	if p.op == "list" && t.op == "list" && len(p.args) == len(t.args) {
		for i := range p.args {
			if !mt.index(p.args[i], t.args[i]) {
				return false
			}
		}
		return true
	}
	// linear in exactly one unsolved variable
	_, as, ks := linParts(p)
	var v *Term
	cnt := 0
	for i, a := range as {
		if _, ok := mt.vars[a]; ok && mt.sub[a] == nil {
			v = a
			cnt++
			if ks[i] != 1 && ks[i] != -1 {
				cnt = 99
			}
		} else if mt.hasVars(a) {
			cnt = 99
		}
	}
	if cnt == 1 {
		k := coefOf(p, v)
		rest := linComb2(p, 1, v, -k)
		s := mulc(sub(t, rest), k)
		return mt.solve(v, s)
	}
	mt.unk = true
	return true
}

// struc matches roots structurally.
func (mt *matcher) struc(p, t *Term) bool {
	p = mt.apply(p)
	if p == t {
		return true
	}
	if p.op == "lin" || p.op == "int" || t.op == "lin" || t.op == "int" || (mt.vars[p] != nil && mt.sub[p] == nil) {
		return mt.index(p, t)
	}
	if isBinder(p.op) && p.op == t.op && p.sym == t.sym && len(p.args) == len(t.args) && binderArity(p.op) == 1 && p.bmax > 0 {
		if !mt.struc(p.args[0], t.args[0]) {
			return false
		}
		xs, ps := openBinder(p)
		ts := instBinder(t, xs[0])
		for i := range ps {
			if !mt.struc(ps[i], ts[i]) {
				return false
			}
		}
		for _, s := range mt.sub {
			if containsTerm(s, xs[0]) {
				return false
			}
		}
		return true
	}
	if p.op != t.op || p.sym != t.sym || len(p.args) != len(t.args) || p.iv != t.iv {
		if p.op == "sym" && t.op == "sym" && (strings.HasPrefix(p.sym, "k#") || strings.HasPrefix(t.sym, "k#")) {
			return mt.index(p, t)
		}
		return false
	}
	if len(p.args) == 0 {
		return false
	}
	if isBinder(p.op) {
		return false
	}
	for i := range p.args {
		if p.op == "alloc" || (p.op == "sel" && i == 1) || p.op == "recv" && i > 0 {
			if !mt.index(p.args[i], t.args[i]) {
				return false
			}
		} else if !mt.struc(p.args[i], t.args[i]) {
			return false
		}
	}
	return true
}

// hit matches an entry against a location (root, path); the entry's path must be a prefix.
type hit struct {
	cond *Term
	sub  map[*Term]*Term
	rest []*Term
	free []QVar // unsolved quantifiers
	idx  *Term  // condition to be satisfied by the unsolved quantifiers
	unk  bool
}

func (e *Entry) match(root *Term, path []*Term) (h hit, ok bool) {
	if len(e.path) > len(path) {
		return h, false
	}
	mt := &matcher{vars: map[*Term]*Term{}, sub: map[*Term]*Term{}, cond: tTrue}
	for _, v := range e.vars {
		mt.vars[v.Sym] = v.N
	}
	if !mt.struc(e.root, root) {
		return h, false
	}
	type pend struct{ p, t *Term }
	var pending []pend
	for i, p := range e.path {
		t := path[i]
		if p.op == "F" || t.op == "F" || p.op == "H" || t.op == "H" {
			if p != t {
				return h, false
			}
			continue
		}
		mt.unk = false
		if !mt.index(p, t) {
			return h, false
		}
		if mt.unk {
			pending = append(pending, pend{p, t})
		}
	}
	idx := tTrue
	unk := false
	for _, q := range pending { // retry once more variables are solved
		mt.unk = false
		if !mt.index(q.p, q.t) {
			return h, false
		}
		if mt.unk {
			unk = true
			idx = bAnd(idx, mkEq(mt.apply(q.p), q.t))
		}
	}
	h = hit{cond: mt.cond, sub: mt.sub, rest: path[len(e.path):], idx: idx, unk: unk}
	for _, v := range e.vars {
		if mt.sub[v.Sym] == nil {
			h.free = append(h.free, QVar{v.Sym, mt.apply(v.N)})
		}
	}
	return h, true
}

// ---------- types ----------

const modPath = "github.com/DyCAPSTeam/DyCAPS"

func isAtomicType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok := t.(*types.Alias); ok {
			return isAtomicType(types.Unalias(a))
		}
		return false
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return true
	}
	p := o.Pkg().Path()
	if strings.HasPrefix(p, modPath) {
		return strings.HasSuffix(p, "internal/bls") && (o.Name() == "Fr" || o.Name() == "G1Point" || o.Name() == "G2Point")
	}
	switch n.Underlying().(type) {
	case *types.Struct:
		return true
	case *types.Array: // field elements and points
		return o.Pkg().Name() == "bls12381" || o.Pkg().Name() == "uint256"
	}
	return false
}

func typName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// structFields lists the fields that make up a struct value (generated protobuf internals left out).
func structFields(s *types.Struct) []*types.Var {
	var out []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch f.Name() {
		case "state", "sizeCache", "unknownFields":
			if i < 3 {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

func zero(t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return tNil
	}
	if isAtomicType(t) {
		switch typName(types.Unalias(t)) {
		case "bls.Fr", "bls12381.Fr", "uint256.Int":
			return tFr0
		case "bls.G1Point", "bls.G1", "bls12381.PointG1":
			return tG0
		case "bytes.Buffer":
			return tEmpty
		}
		return raw("zero", typName(t), 0, nil, nil)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsString != 0:
			return tEmpty
		}
		return raw("zero", u.Name(), 0, nil, nil)
	case *types.Struct:
		var fs []string
		var vs []*Term
		for _, f := range structFields(u) {
			fs = append(fs, f.Name())
			vs = append(vs, zero(f.Type()))
		}
		return mkStruct(typName(t), fs, vs)
	case *types.Array:
		x := freshSym("z")
		return closeBinder("seq", "", mkInt(u.Len()), []*Term{x}, []*Term{zero(u.Elem())})
	}
	return tNil
}

func isBoolT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isUnsignedT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isByteSeq(t types.Type) bool {
	if t == nil {
		return false
	}
	var e types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		e = u.Elem()
	case *types.Array:
		e = u.Elem()
	case *types.Basic:
		return u.Info()&types.IsString != 0
	default:
		return false
	}
	b, ok := e.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func typed(v *Term, t types.Type) *Term {
	if isBoolT(t) {
		return asBool(v)
	}
	if isUnsignedT(t) && v.op != "ite" && !isIntTerm(v) {
		nonneg[v] = true
	}
	return v
}

// ---------- reading ----------

// readAt reads the value of type t stored at (root, path) on the path guarded by pc.
func (m *Mem) readAt(root *Term, path []*Term, t types.Type, pc *Term) *Term {
	if root.op == "nil" {
		return raw("nilread", "", 0, path, nil)
	}
	entries := m.log[rootKey(root)]
	if t != nil && !isAtomicType(t) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if m.hasParts(entries, root, path) {
				var fs []string
				var vs []*Term
				for _, f := range structFields(u) {
					fs = append(fs, f.Name())
					vs = append(vs, m.readAt(root, append(append([]*Term{}, path...), fieldElem(f.Name())), f.Type(), pc))
				}
				return mkStruct(typName(t), fs, vs)
			}
		case *types.Array:
			if m.hasParts(entries, root, path) {
				x := freshSym("e")
				n := mkInt(u.Len())
				rng[x] = [2]*Term{mkInt(0), addc(n, -1)}
				v := m.readAt(root, append(append([]*Term{}, path...), x), u.Elem(), pc)
				return closeBinder("seq", "", n, []*Term{x}, []*Term{v})
			}
		}
	}
	type alt struct{ c, v *Term }
	var alts []alt
	cover := tFalse
	var base *Term
	for i := len(entries) - 1; i >= 0; i-- {
		e := entries[i]
		h, ok := e.match(root, path)
		if !ok {
			continue
		}
		var c, v *Term
		if e.barrier != "" {
			if e.skipSelf(h) {
				continue
			}
			c = h.cond
			if g := subst(e.guard, h.sub); g == tFalse {
				continue
			}
			if e.barrier == "mu" && e.kvar != nil && len(h.free) == 0 && !h.unk {
				// earlier iterations only
				s := h.sub[e.self[0]]
				if s != nil {
					c = bAnd(c, ge0(addc(sub(e.kvar, s), -1)))
				}
			}
			c = simplify(c, pc)
			if c == tFalse {
				continue
			}
			if !implies(pc, c) {
				// undetermined overlap: be conservative
				c = tTrue
			}
			v = muBarrier(e, root, path)
		} else {
			g := subst(e.guard, h.sub)
			val := subst(e.val, h.sub)
			if len(h.free) > 0 {
				if h.idx == tTrue && !h.unk {
					// several iterations write this very location: opaque last write
					for _, f := range h.free {
						last := addc(f.N, -1)
						g = subst1(g, f.Sym, last)
						val = subst1(val, f.Sym, last)
					}
				} else {
					f := h.free[0]
					body := bAnd(h.idx, g)
					for _, o := range h.free[1:] {
						body = mkExists(o.N, o.Sym, body)
						val = subst1(val, o.Sym, closeBinder("first", "", o.N, []*Term{o.Sym}, []*Term{bAnd(h.idx, g)}))
					}
					fst := closeBinder("first", "", f.N, []*Term{f.Sym}, []*Term{body})
					val = subst1(val, f.Sym, fst)
					g = mkExists(f.N, f.Sym, body)
				}
			}
			c = bAnd(h.cond, g)
			v = project(val, h.rest)
		}
		c = simplify(bAnd(c, bNot(cover)), pc)
		if c == tFalse || unsatUnder(pc, c) {
			continue
		}
		alts = append(alts, alt{c, v})
		cover = bOr(cover, c)
		if implies(pc, cover) {
			base = v
			alts = alts[:len(alts)-1]
			break
		}
	}
	if base == nil {
		base = m.initial(root, path, t)
	}
	for i := len(alts) - 1; i >= 0; i-- {
		base = mkIte(alts[i].c, typed(alts[i].v, t), typed(base, t))
	}
	return simplify(typed(base, t), pc)
}

func unsatUnder(pc, c *Term) bool { return unsat(bAnd(pc, c)) }

func (e *Entry) skipSelf(h hit) bool {
	if len(e.self) == 0 || len(h.free) > 0 && false {
		return false
	}
	if e.barrier == "mu" {
		if e.kvar == nil {
			return false
		}
		s := h.sub[e.self[0]]
		if s == nil {
			return false
		}
		d := sub(e.kvar, s)
		return !h.unk && provGe0(mulc(d, -1)) // iteration >= own
	}
	// shared: self holds alternating (renamed, own) instance symbols
	n := 0
	for i := 0; i+1 < len(e.self); i += 2 {
		if h.sub[e.self[i]] == e.self[i+1] {
			n++
		}
	}
	return n > 0 && n == len(e.self)/2
}

// muBarrier names the value a location has behind the barrier e.
func muBarrier(e *Entry, root *Term, path []*Term) *Term {
	n := len(e.path)
	if n > len(path) {
		n = len(path)
	}
	h := hasH(path) && !hasH(path[:n])
	v := muTerm(e.barrier, e.bid, root, path[:n], e.kvar)
	if h {
		return mk("has", "", project(v, dropH(path[n:])))
	}
	return project(v, path[n:])
}

// muTerm is the value of a location at the start of iteration k of a loop ("mu"), or the value left
// there by other goroutines ("shared").
func muTerm(kind, id string, root *Term, path []*Term, k *Term) *Term {
	if hasH(path) {
		return mk("has", "", muTerm(kind, id, root, dropH(path), k))
	}
	l := mkLoc(root, path...)
	if kind == "shared" || k == nil {
		return raw("shared", "", 0, []*Term{l}, nil)
	}
	t := raw("mu", id, 0, []*Term{l, k}, nil)
	if v, ok := knownMu[t]; ok {
		return v
	}
	return t
}

// knownMu holds the solved values of loop-carried pointers (used when the loop is analysed again).
var knownMu = map[*Term]*Term{}

func (m *Mem) hasParts(entries []*Entry, root *Term, path []*Term) bool {
	for _, e := range entries {
		if len(e.path) > len(path) && rootMay(e, root) {
			return true
		}
	}
	return false
}

func rootMay(e *Entry, root *Term) bool {
	mt := &matcher{vars: map[*Term]*Term{}, sub: map[*Term]*Term{}, cond: tTrue}
	for _, v := range e.vars {
		mt.vars[v.Sym] = v.N
	}
	return mt.struc(e.root, root)
}

func (m *Mem) initial(root *Term, path []*Term, t types.Type) *Term {
	if root.op == "alloc" {
		if t == nil {
			return raw("zero", "?", 0, nil, nil)
		}
		if hasH(path) {
			return tFalse
		}
		return zero(t)
	}
	if hasH(path) {
		return mk("has", "", project(root, dropH(path)))
	}
	if root.op == "gconst" && len(path) == 0 {
		return root.args[0]
	}
	return typed(project(root, path), t)
}

var tH = raw("H", "", 0, nil, nil)

func hasH(path []*Term) bool {
	for _, p := range path {
		if p == tH {
			return true
		}
	}
	return false
}

func dropH(path []*Term) []*Term {
	var out []*Term
	for _, p := range path {
		if p != tH {
			out = append(out, p)
		}
	}
	return out
}

// isSize: the path names the number of entries of a map.
func isSize(path []*Term) bool { return len(path) > 0 && path[len(path)-1] == tSize }

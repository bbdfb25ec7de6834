package main

import "strings"

func init() {
	checks["P24"] = checkKeys
	checks["P25"] = checkRoles
}

// aGroup reads arg1 as n=3t+1 and arg2 as t, or argT as 2t+1.
func aGroup(t *Term, m map[*Term]*Term) *Term { return simp2(subst(t, m), tTrue) }

func randomStream(t *Term) bool {
	return t.op == "app" && (t.sym == "kyber.Random.RandomStream" || t.sym == "random.New" && len(t.args) == 0)
}

// polynomial is the sharing polynomial p with threshold T over group g: drawn afresh, or nil with the reason.
func freshPoly(p, T *Term, group *Term) string {
	switch {
	case p.op != "pripolyrand":
		return "is not a fresh polynomial"
	case !sameTerm(p.args[1], T, tTrue):
		return "has " + short(p.args[1]) + " coefficients"
	case p.args[0] != group:
		return "is over " + short(p.args[0])
	case !randomStream(p.args[3]):
		return "has coefficients from " + short(p.args[3])
	case p.args[2].op != "krand" && p.args[2] != tNil:
		return "hides the fixed secret " + short(p.args[2])
	case p.args[2].op == "krand" && !randomStream(p.args[2].args[0]):
		return "hides a secret from " + short(p.args[2].args[0])
	}
	return ""
}

// keysOf: shares and public key belong to one polynomial, which is returned.
func (c *Ck) keysOf(r *Run, shares, pub, n *Term, rule, site string) *Term {
	g := app("pairing.Suite.G2", mkSym("suite"))
	if !c.ob(shares.op == "app" && shares.sym == "share.PriPoly.Shares" && len(shares.args) == 2, rule, site, "the key shares are %s", short(shares)) ||
		!c.ob(pub.op == "app" && pub.sym == "share.PriPoly.Commit" && len(pub.args) == 2, rule, site, "the public key is %s", short(pub)) {
		return nil
	}
	c.ob(shares.args[0] == pub.args[0], rule, site, "the key shares are those of %s, the public key is that of %s", short(shares.args[0]), short(pub.args[0]))
	c.eq(shares.args[1], n, tTrue, rule, site, "number of key shares")
	c.ob(pub.args[1] == app("kyber.Point.Base", app("kyber.Group.Point", g)) || pub.args[1] == tNil, rule, site, "the public key is over the base %s", short(pub.args[1]))
	return shares.args[0]
}

// keyFile: polynomial p has exactly the T coefficients of a key file, whose name is returned.
func (c *Ck) keyFile(p, T *Term, rule, site string) *Term {
	g := app("pairing.Suite.G2", mkSym("suite"))
	if !c.ob(p != nil && p.op == "pripoly" && p.args[0] == g, rule, site, "the keys are those of %s", short(p)) {
		return nil
	}
	var name *Term
	walk(p, func(x *Term) {
		if x.op == "file" {
			name = x.args[0]
		}
	})
	if !c.ob(name != nil, rule, site, "the coefficients are %s", short(p.args[1])) {
		return nil
	}
	in := mk("ungob", "[][]byte", mk("file", "", name))
	c.eq(mkLen(p.args[1]), T, tTrue, rule, site, "number of coefficients")
	x := idx("i", mkInt(0), T)
	c.eq(mkSel(p.args[1], x), mk("kbytes", "", mkSel(in, x)), tTrue, rule, site, "coefficient")
	return name
}

// results are what a function returns, on the one path where it does.
func (c *Ck) results(r *Run, n int, rule string) (*Effect, []*Term) {
	var out *Effect
	for _, e := range r.kinds("return") {
		if ctxID(e.ctx) == "main" {
			c.ob(out == nil, rule, r.name, "returns at %s and %s", r.posStr(e.pos), "another place")
			out = e
		}
	}
	if !c.ob(out != nil && len(out.args) == n, rule, r.name, "does not return %d values", n) {
		return nil, nil
	}
	return out, out.args
}

func checkKeys(c *Ck) {
	F2 := addc(mulc(tF, 2), 1)
	m := map[*Term]*Term{mkSym("arg0"): addc(mulc(tF, 3), 1), mkSym("arg1"): F2}
	g2 := app("pairing.Suite.G2", mkSym("suite"))

	// generation: two files, each written once with the coefficients of its own fresh polynomial
	gen := c.run("party.GenCoefficientsFile")
	files := map[*Term]*Term{}
	polys := map[string]*Term{}
	secrets := map[string]*Term{}
	for _, e := range gen.kinds("writefile") {
		name := e.args[0]
		site := "file " + short(name)
		if !c.ob(name.op == "str" && len(e.loops) == 0 && ctxID(e.ctx) == "main", "keys.files", site, "is not one fixed file written once, at %s", gen.posStr(e.pos)) {
			continue
		}
		c.ob(files[name] == nil, "keys.files", site, "is written twice")
		c.ob(e.args[2].op == "int" && e.args[2].iv&077 == 0, "keys.files", site, "can be read by others: its mode is %s", short(e.args[2]))
		v := aGroup(e.args[1], m)
		files[name] = v
		var p *Term
		walk(v, func(x *Term) {
			if x.op == "pripolyrand" && p == nil {
				p = x
			}
		})
		if !c.ob(v.op == "gob" && p != nil, "keys.poly", site, "holds %s, want the coefficients of a fresh polynomial", short(v)) {
			continue
		}
		why := freshPoly(p, F2, g2)
		c.ob(why == "", "keys.poly", site, "the polynomial %s", why)
		c.ob(polys[p.sym] == nil, "keys.independent", site, "has the polynomial of another committee")
		polys[p.sym] = p
		if s := p.args[2]; s.op == "krand" {
			c.ob(secrets[s.sym] == nil, "keys.independent", site, "has the secret of another committee")
			secrets[s.sym] = s
		}
		l := v.args[0]
		c.eq(mkLen(l), F2, tTrue, "keys.poly", site, "number of coefficients")
		x := idx("i", mkInt(0), F2)
		c.eq(mkSel(l, x), mk("kenc", "", mkSel(mk("pricoef", "", p), x)), tTrue, "keys.poly", site, "coefficient")
		// the function only ends without an error when the file is written
		for _, o := range gen.kinds("return") {
			c.ob(implies(o.pc, bAnd(e.pc, mkEq(e.args[3], tNil))), "keys.files", site, "generation can end without writing it")
		}
	}
	c.ob(len(files) == 2, "keys.files", "party.GenCoefficientsFile", "%d files are written, want one for each of the two committees", len(files))

	// every member derives its keys from these files
	read := map[*Term]bool{}
	for _, f := range []string{"party.SigKeyGenFix", "party.SigKeyGenFix_New"} {
		r := c.run(f)
		e, out := c.results(r, 2, "keys.read")
		if e == nil {
			continue
		}
		p := c.keysOf(r, aGroup(out[0], m), aGroup(out[1], m), addc(mulc(tF, 3), 1), "keys.pair", f)
		if p == nil {
			continue
		}
		if name := c.keyFile(p, F2, "keys.read", f); name != nil {
			c.ob(files[name] != nil, "keys.read", f, "reads %s, which key generation does not write", short(name))
			c.ob(!read[name], "keys.read", f, "reads the file of the other committee")
			read[name] = true
			c.imp(e.pc, bAnd(mkEq(mk("fileerr", "", name), tNil), mkEq(mk("goberr", "", mk("file", "", name)), tNil)), "keys.read", f, "keys are returned only when the file was read and decoded")
		}
	}
	r := c.run("party.SigKeyGen")
	if e, out := c.results(r, 2, "keys.pair"); e != nil {
		if p := c.keysOf(r, aGroup(out[0], m), aGroup(out[1], m), addc(mulc(tF, 3), 1), "keys.pair", r.name); p != nil {
			why := freshPoly(p, F2, g2)
			c.ob(why == "", "keys.poly", r.name, "the polynomial %s", why)
		}
	}
	c.member()
}

// member: a new member starts from the arguments, the common parameters and an empty state of the right sizes.
func (c *Ck) member() {
	r := c.run("party.NewHonestParty")
	out := c.returned(r, "member.new")
	if out == nil {
		return
	}
	t := r.typeNamed("party", "HonestParty")
	N := addc(mulc(tF, 3), 1)
	m := map[*Term]*Term{mkSym("arg1"): N, mkSym("arg2"): tF}
	v := r.deep(r.read(out, t), t)
	get := func(f string) *Term { return aGroup(mkFld(v, f), m) }
	at := func(f string) string { return "new member: " + f }
	for f, a := range map[string]*Term{"N": N, "F": tF, "PID": mkSym("arg3"), "ipList": mkSym("arg4"), "portList": mkSym("arg5"), "ipListNext": mkSym("arg6"),
		"portListNext": mkSym("arg7"), "SigPK": mkSym("arg8"), "SigSK": mkSym("arg9"), "e": mkSym("arg0")} {
		c.eq(get(f), a, tTrue, "member.args", at(f), "value")
	}
	for f, n := range map[string]*Term{"sendChannels": N, "sendToNextChannels": N, "fullShare": addc(mulc(tF, 2), 1), "reducedShare": addc(tF, 1), "witness": addc(mulc(tF, 2), 1), "witnessIndexes": addc(mulc(tF, 2), 1)} {
		c.eq(mkLen(get(f)), n, tTrue, "member.sizes", at(f), "length")
	}
	c.imp(tTrue, ge0(sub(mkLen(mkFld(get("Proof"), "PiContents")), addc(mulc(tF, 2), 2))), "member.sizes", at("Proof"), "entries for the indexes 0..2t+1")
	c.ob(mkFld(v, "mutexKZG").op == "loc", "member.sizes", at("mutexKZG"), "is not set")
	k := get("KZG")
	if c.ob(k.op == "kzgset" && k.args[1].op == "setup1" && k.args[2].op == "setup2", "member.kzg", at("KZG"), "is %s, want settings from a common setup", short(k)) {
		a, b := k.args[1], k.args[2]
		c.ob(a.args[0] == b.args[0] && a.args[0].op == "str", "member.kzg", at("KZG"), "the two halves of the setup, or those of different members, differ: %s and %s", short(a.args[0]), short(b.args[0]))
		for _, x := range []*Term{a, b} {
			c.imp(tTrue, ge0(sub(x.args[1], addc(tF, 1))), "member.kzg", at("KZG"), "the setup covers polynomials with t+1 coefficients")
		}
	}
	s := get("tblsScheme")
	c.ob(s.op == "scheme" && strings.HasSuffix(s.sym, "NewThresholdSchemeOnG1"), "member.kzg", at("tblsScheme"), "is %s, not the scheme whose public keys are in G2", short(s))
	// the interpolation table: row i holds the coefficients that take values at 1..2t+1 to the value at i
	l := get("LagrangeCoefficients")
	c.eq(mkLen(l), addc(N, 1), tTrue, "member.lagrange", at("LagrangeCoefficients"), "rows")
	i := idx("i", mkInt(0), addc(N, 1))
	c.eq(mkSel(l, i), r.T("lagr(seq(j, 2*F+1, asfr(j+1)), asfr(i))", "i", i), tTrue, "member.lagrange", at("LagrangeCoefficients"), "row")
}

var tMe = mkFld(tP, "PID")

type role struct {
	name   string
	lists  string // its own lists
	next   string // the lists of the committee it hands over to ("-": none)
	key    string // the function its keys come from ("-": none)
	phases []string
	before [][2]string
}

var roles = []role{
	{"oldCommittee", "", "Next", "party.SigKeyGenFix", []string{"VSSShareReceive", "PrepareSend", "ShareReduceSend"},
		[][2]string{{"InitSendToNextChannel", "PrepareSend"}, {"InitSendToNextChannel", "ShareReduceSend"}, {"VSSShareReceive", "PrepareSend"}, {"VSSShareReceive", "ShareReduceSend"}}},
	{"newCommittee", "Next", "-", "party.SigKeyGenFix_New", []string{"PrepareReceive", "ShareReduceReceive", "ProactivizeAndShareDist"},
		[][2]string{{"PrepareReceive", "ShareReduceReceive"}, {"ShareReduceReceive", "ProactivizeAndShareDist"}}},
	{"onlyOneCommittee", "", "", "party.SigKeyGenFix", []string{"VSSShareReceive", "PrepareSend", "PrepareReceive", "ShareReduceSend", "ShareReduceReceive", "ProactivizeAndShareDist"},
		[][2]string{{"InitSendToNextChannel", "PrepareSend"}, {"InitSendToNextChannel", "ShareReduceSend"}, {"VSSShareReceive", "PrepareSend"}, {"VSSShareReceive", "ShareReduceSend"},
			{"PrepareSend", "PrepareReceive"}, {"ShareReduceSend", "ShareReduceReceive"}, {"PrepareReceive", "ShareReduceReceive"}, {"ShareReduceReceive", "ProactivizeAndShareDist"}}},
	{"client", "", "-", "-", []string{"Share"}, nil},
}

// checkRoles: the command line program sets up and runs each role as the other roles expect.
func checkRoles(c *Ck) {
	// the names of the key files
	file := map[string]*Term{}
	for _, f := range []string{"party.SigKeyGenFix", "party.SigKeyGenFix_New"} {
		for _, e := range c.run(f).kinds("return") {
			for _, a := range e.args {
				walk(a, func(x *Term) {
					if x.op == "file" {
						file[f] = x.args[0]
					}
				})
			}
		}
	}
	steps := []string{"VSSShareReceive", "PrepareSend", "PrepareReceive", "ShareReduceSend", "ShareReduceReceive", "ProactivizeAndShareDist"}
	keep := []string{"party.NewHonestParty", "party.Client.Share", "party.GenCoefficientsFile"}
	for _, s := range steps {
		keep = append(keep, "party.HonestParty."+s)
	}
	r := c.runOpt("main.main", "", keeping(keep...))
	flags := map[string]*Term{}
	r.everyTerm(func(x *Term) {
		if x.op == "app" && strings.HasPrefix(x.sym, "flag.") && len(x.args) > 0 && x.args[0].op == "str" {
			flags[x.args[0].sym] = x
		}
	})
	for _, f := range []string{"n", "f", "id", "op1", "op2", "lp"} {
		if !c.ob(flags[f] != nil, "role.flags", "flag "+f, "is not used") {
			return
		}
	}
	N, F2 := addc(mulc(tF, 3), 1), addc(mulc(tF, 2), 1)
	given := func(op1, op2 string) map[*Term]*Term {
		return map[*Term]*Term{flags["n"]: N, flags["f"]: tF, flags["id"]: tMe, flags["op1"]: mkStr(op1), flags["op2"]: mkStr(op2), flags["lp"]: mkSym("lp")}
	}
	sess := map[string]map[string]*Term{}
	note := func(phase, role string, id *Term) {
		if sess[phase] == nil {
			sess[phase] = map[string]*Term{}
		}
		sess[phase][role] = id
	}
	all := map[string]bool{}
	for _, k := range keep {
		all[k] = true
	}
	for _, x := range []string{"InitReceiveChannel", "InitSendChannel", "InitSendToNextChannel"} {
		all["party.HonestParty."+x] = true
	}
	live := func(m map[*Term]*Term) []*Effect {
		var out []*Effect
		for _, e := range r.effects {
			pc := aGroup(e.pc, m)
			if unsat(pc) {
				continue
			}
			y := *e
			y.pc = pc
			y.args = append([]*Term{}, e.args...)
			for i := range y.args {
				y.args[i] = aGroup(y.args[i], m)
			}
			out = append(out, &y)
		}
		return out
	}
	// key generation
	for _, op2 := range []string{"oldCommittee", "newCommittee", "client"} {
		var gen []*Effect
		for _, e := range live(given("1", op2)) {
			if all[e.name] {
				gen = append(gen, e)
			}
		}
		if c.ob(len(gen) == 1 && gen[0].name == "party.GenCoefficientsFile" && len(gen[0].args) == 2 && implies(tTrue, gen[0].pc), "role.keygen", "option 1", "does not (only and always) generate the key files") {
			c.eq(gen[0].args[0], N, tTrue, "role.keygen", "option 1", "number of members")
			c.eq(gen[0].args[1], F2, tTrue, "role.keygen", "option 1", "threshold of the keys")
		}
	}
	for _, ro := range roles {
		c.role(r, ro, live(given("2", ro.name)), file, all, note)
	}
	same := func(a, b string) {
		ids := map[*Term]bool{}
		for _, p := range []string{a, b} {
			for _, t := range sess[p] {
				ids[t] = true
			}
		}
		c.ob(len(ids) == 1, "role.session", a+" and "+b, "use %d different session IDs", len(ids))
	}
	same("Share", "VSSShareReceive")
	same("PrepareSend", "PrepareReceive")
	same("ShareReduceSend", "ShareReduceReceive")
	same("ProactivizeAndShareDist", "ProactivizeAndShareDist")
}

func (c *Ck) role(r *Run, ro role, es []*Effect, file map[string]*Term, all map[string]bool, note func(string, string, *Term)) {
	N, F2 := addc(mulc(tF, 3), 1), addc(mulc(tF, 2), 1)
	at := map[string]*Effect{}
	var last, stay *Effect
	var naps []*Effect
	for _, e := range es {
		switch {
		case all[e.name] && (e.kind == "call" || e.kind == "Call"):
			n := e.name[strings.LastIndex(e.name, ".")+1:]
			c.ob(at[n] == nil && len(e.loops) == 0 && ctxID(e.ctx) == "main", "role.phases", ro.name+": "+n, "runs more than once, or in a goroutine, at %s", r.posStr(e.pos))
			at[n] = e
		case e.kind == "sleep" && ctxID(e.ctx) == "main":
			naps = append(naps, e)
		}
	}
	nw := at["NewHonestParty"]
	if !c.ob(nw != nil && len(nw.args) == 10, "role.member", ro.name, "creates no member") {
		return
	}
	// its lists
	list := func(kind, which string) *Term {
		return mkSub(app("strings.Split", mk("file", "", mkCat(mkSym("lp"), mkStr("/"+kind+"List"+which))), mkStr("\n")), mkInt(0), N)
	}
	c.eq(nw.args[1], N, tTrue, "role.member", ro.name, "committee size")
	c.eq(nw.args[2], tF, tTrue, "role.member", ro.name, "number of faults")
	c.eq(nw.args[4], list("ip", ro.lists), tTrue, "role.lists", ro.name, "addresses of its committee")
	c.eq(nw.args[5], list("port", ro.lists), tTrue, "role.lists", ro.name, "ports of its committee")
	if ro.next != "-" {
		c.eq(nw.args[6], list("ip", ro.next), tTrue, "role.lists", ro.name, "addresses of the next committee")
		c.eq(nw.args[7], list("port", ro.next), tTrue, "role.lists", ro.name, "ports of the next committee")
	}
	if ro.key != "-" {
		c.eq(nw.args[3], tMe, tTrue, "role.member", ro.name, "number of the member")
		pk, sk := nw.args[8], nw.args[9]
		if c.ob(sk.op == "sel" && sameTerm(sk.args[1], tMe, tTrue), "role.keys", ro.name, "its key share is %s, not the one of its number", short(sk)) {
			if p := c.keysOf(r, sk.args[0], pk, N, "role.keys", ro.name); p != nil {
				if name := c.keyFile(p, F2, "role.keys", ro.name); name != nil {
					c.ob(name == file[ro.key], "role.keys", ro.name, "has the keys of %s, want those of %s", short(name), short(file[ro.key]))
				}
			}
		}
	} else {
		d := sub(nw.args[3], N)
		c.ob(!implies(tTrue, bNot(ge0(d))) && nw.args[3].op == "int" && nw.args[3].iv >= 1<<16, "role.member", ro.name, "its number %s can be that of a member", short(nw.args[3]))
	}
	// its phases
	want := append([]string{"InitSendChannel"}, ro.phases...)
	if ro.name != "client" {
		want = append(want, "InitReceiveChannel")
	}
	if ro.next != "-" {
		want = append(want, "InitSendToNextChannel")
	}
	wanted := map[string]bool{"NewHonestParty": true}
	for _, w := range want {
		wanted[w] = true
		e := at[w]
		if !c.ob(e != nil, "role.phases", ro.name+": "+w, "does not run") {
			continue
		}
		c.ob(e.seq > nw.seq, "role.phases", ro.name+": "+w, "runs before the member is set up")
		c.ob(implies(nw.pc, e.pc), "role.phases", ro.name+": "+w, "runs only when %s", short(simplify(e.pc, nw.pc)))
		if last == nil || e.seq > last.seq {
			last = e
		}
	}
	for n, e := range at {
		c.ob(wanted[n], "role.phases", ro.name+": "+n, "is not a step of this role, at %s", r.posStr(e.pos))
	}
	before := append([][2]string{}, ro.before...)
	for _, p := range ro.phases {
		before = append(before, [2]string{"InitSendChannel", p})
		if ro.name != "client" {
			before = append(before, [2]string{"InitReceiveChannel", p})
		}
	}
	if ro.name != "client" {
		before = append(before, [2]string{"InitReceiveChannel", "InitSendChannel"}, [2]string{"InitReceiveChannel", "InitSendToNextChannel"})
	}
	for _, b := range before {
		x, y := at[b[0]], at[b[1]]
		if x != nil && y != nil {
			c.ob(x.seq < y.seq, "role.order", ro.name+": "+b[1], "runs before %s", b[0])
		}
	}
	for _, p := range ro.phases {
		e := at[p]
		if e == nil || len(e.args) < 2 {
			continue
		}
		if p != "Share" {
			c.ob(sameTerm(e.args[0], raw("app", nw.name, 0, nw.args, nil), tTrue), "role.phases", ro.name+": "+p, "runs for %s, not the member set up", short(e.args[0]))
		}
		id := e.args[1]
		c.ob(id.op == "str" && id.sym != "", "role.session", ro.name+": "+p, "has the session ID %s", short(id))
		note(p, ro.name, id)
	}
	if last == nil {
		return
	}
	// between its listener and its connections it waits for the other members
	a, b := at["InitReceiveChannel"], at["InitSendChannel"]
	waits := false
	for _, e := range naps {
		if b != nil && e.seq < b.seq && (a == nil || e.seq > a.seq) && implies(nw.pc, e.pc) {
			waits = true
		}
		if e.seq > last.seq && implies(nw.pc, e.pc) {
			stay = e
		}
	}
	c.ob(waits, "role.wait", ro.name, "does not wait for the listeners of the other members before it connects to them")
	c.ob(stay != nil, "role.stay", ro.name, "ends right after its last phase, while its messages may still be on their way")
}

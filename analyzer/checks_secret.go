package main

import "strings"

func init() { checks["P23"] = checkSecret }

// keptSecret are the parts of a member's (or the client's) state that nobody else may learn.
var keptSecret = map[string]bool{"fullShare": true, "reducedShare": true, "SigSK": true, "s": true}

// secrecy decides which secrets a value reveals.
type secrecy struct {
	r      *Run
	fields map[string]bool // "Type.Field" of received data that is meant for its receiver only
	dest   *Term           // the member the value is sent to
	seen   map[*Term]bool
	writes map[string]bool
}

func secretType(fields map[string]bool, typ string) bool {
	for f := range fields {
		if strings.HasPrefix(f, typ+".") {
			return true
		}
	}
	return false
}

func (s *secrecy) forDest(x *Term) bool {
	return s.dest != nil && (x == s.dest || x == addc(s.dest, 1) || x == mk("asfr", "", addc(s.dest, 1)))
}

// leak is a secret that can be computed from t, or nil.
func (s *secrecy) leak(t *Term) *Term {
	if t == nil || s.seen[t] {
		return nil
	}
	s.seen[t] = true
	switch t.op {
	case "commit", "proof", "mulg1", "lincomb", "tsign", "len", "maplen", "ge0", "eq0", "eq", "has", "closure", "str", "int", "nil", "recd":
		return nil
	case "rand":
		return t
	case "ite":
		if l := s.leak(t.args[1]); l != nil {
			return l
		}
		return s.leak(t.args[2])
	case "sym":
		if t == tP || t == mkSym("recv") {
			return t
		}
		return nil
	case "netin":
		if n := t.args[1]; n.op == "int" && n.iv <= 8 {
			return nil // the length of a frame
		}
		return t
	case "unm":
		if t.sym == "protobuf.Message" || secretType(s.fields, t.sym) {
			return t
		}
		return nil
	case "recv":
		if t.args[0].op != "mailbox" {
			if l, ok := s.handed(t); ok {
				return l
			}
			return t // a message of any type
		}
		if ty := t.args[0].args[0]; ty.op != "str" || secretType(s.fields, "protobuf."+ty.sym) {
			return t
		}
		return nil
	case "smval":
		for _, x := range s.r.stores(t) {
			if l := s.leak(x.val); l != nil {
				return l
			}
		}
		return nil
	case "mu", "shared":
		return s.stored(t)
	case "slice", "loc", "alloc":
		return s.stored(raw("shared", "", 0, []*Term{mkLoc(locRoot(t))}, nil))
	case "eval":
		if s.forDest(t.args[1]) {
			return nil
		}
	case "sel":
		if s.forDest(t.args[1]) {
			return nil
		}
	case "lincombfr":
		if x := t.args[1]; x.op == "lagr" && s.forDest(x.args[1]) {
			return nil
		}
	case "fld":
		b := t.args[0]
		switch {
		case b == tP || b == mkSym("recv") || b.op == "fld" && b.args[0] == mkSym("recv"):
			if keptSecret[t.sym] || t.sym == "HonestParty" {
				return t
			}
			return nil
		case b.op == "unm" && b.sym == "protobuf.Message":
			if t.sym == "Data" {
				return t
			}
			return nil
		case b.op == "unm":
			if s.fields[b.sym+"."+t.sym] {
				return t
			}
			return nil
		case b.op == "fld" || b.op == "sel":
			return s.leak(b)
		case t.sym == "Data":
			if d := s.leak(b); d != nil {
				return t
			}
			return nil
		case b.op == "recv" || b.op == "mu" && s.message(b) || b.op == "shared" && s.message(b):
			return nil // envelope
		}
	}
	if strings.HasSuffix(t.op, "err") || strings.HasPrefix(t.op, "check:") || t.op == "app" && strings.HasPrefix(t.sym, "isa:") {
		return nil
	}
	if t.op == "res" {
		return nil // outcome of a protocol that is analysed on its own
	}
	for _, a := range t.args {
		if l := s.leak(a); l != nil {
			return l
		}
	}
	return nil
}

func locRoot(t *Term) *Term {
	for t.op == "slice" || t.op == "loc" {
		t = t.args[0]
	}
	return t
}

func (s *secrecy) message(t *Term) bool {
	root, path := locParts(t.args[0])
	_ = root
	return len(path) == 0 || path[len(path)-1].op != "F"
}

// handed: what was received from a channel of the member's own goroutines.
func (s *secrecy) handed(t *Term) (*Term, bool) {
	hit := false
	for _, b := range s.r.bursts(t.args[0]) {
		for _, x := range b {
			hit = true
			if len(x.e.args) > 1 {
				if l := s.leak(x.e.args[1]); l != nil {
					return l, true
				}
			}
		}
	}
	return nil, hit
}

// stored: what has been written where t was read.
func (s *secrecy) stored(t *Term) *Term {
	root, path := locParts(t.args[0])
	if root == tP || root == mkSym("recv") {
		for _, p := range path {
			if p.op == "F" && keptSecret[p.sym] {
				return t
			}
		}
		if len(path) == 0 {
			return t
		}
		return nil
	}
	for _, p := range path {
		if s.forDest(p) {
			return nil
		}
	}
	if t.op == "mu" {
		li := s.r.loopOf(t)
		var ms []*Mem
		if li != nil {
			ms = []*Mem{li.before, li.snap}
		}
		for _, m := range ms {
			if m == nil {
				continue
			}
			if v := unzero(m.readAt(root, path, nil, tTrue)); v != t {
				if l := s.leak(v); l != nil {
					return l
				}
			}
		}
	}
	for _, w := range s.r.mem.jent {
		if w.barrier != "" || w.val == nil || rootKey(w.root) != rootKey(root) {
			continue
		}
		apart := false
		for i := 0; i < len(path) && i < len(w.path); i++ {
			apart = apart || path[i].op == "F" && w.path[i].op == "F" && path[i] != w.path[i]
		}
		if apart {
			continue
		}
		if l := s.leak(w.val); l != nil {
			return l
		}
	}
	return nil
}

// checkSecret: what is logged or sent to others reveals no secret.
func checkSecret(c *Ck) {
	rs := c.protocolRuns()
	fields := map[string]bool{}
	for _, r := range rs {
		r.everyTerm(func(t *Term) {
			if t.op == "frfrom" {
				walk(t, func(x *Term) {
					if x.op == "fld" && x.args[0].op == "unm" {
						fields[x.args[0].sym+"."+x.sym] = true
					}
				})
			}
		})
	}
	c.ob(len(fields) >= 5, "secret.fields", "messages", "only %d private message parts were found", len(fields))
	for _, f := range []string{"MakeSendChannel", "MakeReceiveChannel", "MakeDispatcheChannels", "Encapsulation", "Decapsulation"} {
		rs = append(rs, c.run("core."+f))
	}
	for _, f := range []string{"HonestParty.InitReceiveChannel", "HonestParty.InitSendChannel", "HonestParty.InitSendToNextChannel", "NewHonestParty", "SigKeyGen", "SigKeyGenFix", "SigKeyGenFix_New"} {
		rs = append(rs, c.run("party."+f))
	}
	for _, r := range rs {
		show := func(t, dest *Term) *Term {
			return (&secrecy{r: r, fields: fields, dest: dest, seen: map[*Term]bool{}}).leak(t)
		}
		for _, e := range r.effects {
			if unsat(e.pc) {
				continue
			}
			switch e.kind {
			case "log", "fatal":
				for _, a := range e.args {
					l := show(simp2(a, e.pc), nil)
					c.ob(l == nil, "secret.log", r.posStr(e.pos), "a log line shows %s", short(l))
				}
			case "Call":
				for _, a := range e.args {
					if a != tP && a.op != "sym" {
						l := show(simp2(a, e.pc), nil)
						c.ob(l == nil, "secret.broadcast", r.posStr(e.pos), "%s is handed %s", e.name, short(l))
					}
				}
			}
		}
		for _, s := range r.allSends() {
			l := show(simp2(s.data, s.pc), s.dest)
			c.ob(l == nil, "secret.send", s.typ+" at "+r.posStr(s.e.pos), "the message to %s reveals %s", destName(s), short(l))
		}
	}
}

func destName(s *SendOp) string {
	if s.dest == nil {
		return "everyone"
	}
	return short(s.dest)
}

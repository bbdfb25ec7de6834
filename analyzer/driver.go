package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// analyse runs the engine on the named entry function until the writes of concurrent goroutines
// that it has to account for are stable.
func (p *Prog) analyse(name string) *Interp { return p.analyseOpt(name, nil) }

func (p *Prog) analyseOpt(name string, opt func(*Interp)) *Interp {
	fi := p.names[name]
	if fi == nil {
		panic("function " + name + " not found")
	}
	var learned []*Entry
	spawn := map[string]int{}
	prevKey := ""
	var it *Interp
	for run := 0; run < 5; run++ {
		it = newInterp(p)
		if opt != nil {
			opt(it)
		}
		it.learned, it.learnedSpawn = learned, spawn
		it.rootFn = name
		it.sharedRoots = map[string]bool{}
		for _, e := range learned {
			late := ctxID(e.ctx) != "main"
			for _, sp := range spawn {
				late = late || e.seq > sp
			}
			if late && !it.localTo(e.root, e.ctx) {
				it.sharedRoots[rootKey(e.root)] = true
			}
		}
		it.runEntry(fi)
		// what the goroutines of this run wrote
		var all []*Entry
		all = append(all, it.ctxWrites...)
		if len(it.ctxs) > 1 {
			for i := 0; i < len(it.mem.jent); i++ {
				if e := it.mem.jent[i]; e.barrier == "" {
					all = append(all, e)
				}
			}
		}
		keys := map[string]bool{}
		for _, e := range all {
			keys[canonKey(e)+"@"+ctxID(e.ctx)] = true
		}
		var ks []string
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		key := strings.Join(ks, "\n")
		if len(it.ctxs) <= 1 || key == prevKey {
			break
		}
		prevKey = key
		learned = all
		spawn = map[string]int{}
		for _, c := range it.ctxs {
			spawn[c.id] = c.spawnSeq
		}
	}
	return it
}

func ctxID(c *Ctx) string {
	if c == nil {
		return ""
	}
	return c.id
}

func (it *Interp) runEntry(fi *FuncInfo) {
	it.ctx = &Ctx{id: "main"}
	it.ctxs = []*Ctx{it.ctx}
	sig := fi.fn.Type().(*types.Signature)
	var recv *Term
	if sig.Recv() != nil {
		if strings.HasSuffix(typName(sig.Recv().Type()), "HonestParty") {
			recv = tP
		} else {
			recv = mkSym("recv")
		}
	}
	var args []*Term
	for i := 0; i < sig.Params().Len(); i++ {
		v := sig.Params().At(i)
		if strings.HasSuffix(typName(v.Type()), "*party.HonestParty") {
			args = append(args, tP)
			continue
		}
		k := i
		if j, ok := it.sameArg[i]; ok {
			k = j
		}
		a := typed(mkSym(fmt.Sprintf("arg%d", k)), v.Type())
		if f := it.fixArgs[a.sym]; f != nil {
			a = f
		}
		args = append(args, a)
	}
	it.fr = &Frame{name: "entry", info: fi.pkg.TypesInfo, pkg: fi.pkg, vars: nil, cs: "e"}
	it.stack = append(it.stack, fi.fn)
	name := funcName(fi.fn)
	out := it.callBody(name, fi.pkg, nil, sig, fi.decl.Type, fi.decl.Recv, fi.decl.Body, recv, args, "r")
	it.fr.name = name
	it.effect("return", name, fi.decl.End(), out...)
	it.endCtx(fi.decl.End())
}

func (it *Interp) dump(filter ...string) {
	for _, e := range it.effects {
		if len(filter) > 0 {
			ok := false
			for _, f := range filter {
				if strings.Contains(e.kind, f) {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		fmt.Printf("#%d %s %s [%s] @%s fn=%s\n", e.seq, e.kind, e.name, ctxID(e.ctx), it.posStr(e.pos), e.fn)
		for i, a := range e.args {
			fmt.Printf("    a%d = %s\n", i, brief(deepSimp(a, e.pc)))
		}
		fmt.Printf("    pc = %s\n", brief(e.pc))
		for _, q := range e.loops {
			fmt.Printf("    loop %s < %s\n", q.Sym, q.N)
		}
		for _, h := range e.held {
			fmt.Printf("    held %s\n", h)
		}
	}
	for _, k := range sortedKeys(it.notes) {
		fmt.Println("NOTE", k)
	}
	if len(filter) == 0 || contains(filter, "mem") || contains(filter, "allocs") {
		seen := map[*Entry]bool{}
		for i := range it.mem.jent {
			e := it.mem.jent[i]
			if seen[e] || e.val == nil {
				continue
			}
			seen[e] = true
			if e.root.op == "alloc" && !contains(filter, "allocs") {
				continue
			}
			fmt.Printf("MEM %s %v vars=%v\n   guard=%s\n   val=%s\n", e.root, e.path, e.vars, brief(deepSimp(e.guard, tTrue)), brief(deepSimp(e.val, e.guard)))
		}
	}
	if contains(filter, "mu") {
		for _, k := range sortedKeys(it.mus) {
			m := it.mus[k]
			fmt.Printf("MU %s\n   init=%s\n   update=%s\n", brief(m.mu), brief(m.init), brief(m.update))
		}
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

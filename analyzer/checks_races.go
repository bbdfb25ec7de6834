package main

import (
	"fmt"
	"strings"
)

func init() { checks["P21"] = checkRaces }

func checkRaces(c *Ck) {
	edges := map[string]map[string]string{} // lock -> lock taken while it is held -> where
	for _, r := range c.protocolRuns() {
		as := r.accesses()
		c.extra["accesses to shared locations"] += len(as)
		c.ob(true, "race.pair", r.name, "")
		for _, p := range r.racing(as) {
			a, b := p[0], p[1]
			if !a.write {
				a, b = b, a
			}
			kind := "read"
			if b.write {
				kind = "written"
			}
			c.ob(false, "race.pair", fmt.Sprintf("%s: %s%s", r.name, brief(a.root), pathStr(a.path)), "is written at %s and %s at %s by goroutines that may run at the same time, without a common lock", a.what, kind, b.what)
		}
		for _, e := range r.effects {
			if unsat(e.pc) {
				continue
			}
			at := r.posStr(e.pos)
			switch e.kind {
			case "heldatend":
				c.ob(false, "lock.balance", at, "the lock %s is still held at the end of a goroutine or of %s", brief(e.args[0]), r.name)
			case "heldatback", "releasedatback":
				c.ob(false, "lock.balance", at, "the lock %s is not released as often as taken in a loop of %s", brief(e.args[0]), r.name)
			case "unlock":
				held := false
				for _, h := range e.held {
					held = held || h == e.args[0]
				}
				c.ob(held, "lock.balance", at, "the lock %s is released in %s without being held", brief(e.args[0]), r.name)
			case "lock":
				for _, h := range e.held {
					c.ob(h != e.args[0], "lock.order", at, "the lock %s is taken again in %s while held", brief(e.args[0]), r.name)
					x, y := r.lockName(h), r.lockName(e.args[0])
					if edges[x] == nil {
						edges[x] = map[string]string{}
					}
					edges[x][y] = at
					c.ob(true, "lock.order", at, "")
				}
			}
		}
	}
	for _, x := range sortedKeys(edges) {
		if path := cycle(edges, x); path != nil && x == minOf(path) {
			c.ob(false, "lock.order", strings.Join(path, " -> "), "the locks are taken in both orders, last at %s", edges[path[len(path)-1]][x])
		}
	}
}

// lockName identifies a lock variable, up to its index.
func (r *Run) lockName(t *Term) string {
	root, path := locParts(t)
	n := rootKey(root)
	if root == tP {
		n = "P"
	} else if i := strings.Index(n, "|"); i > 0 {
		n = n[:i]
	}
	if root.op == "alloc" {
		n = r.name + ":" + n
	}
	return n + pathStr(path)
}

// cycle is a path from x back to x.
func cycle(edges map[string]map[string]string, x string) []string {
	prev := map[string]string{}
	todo := []string{x}
	for len(todo) > 0 {
		y := todo[0]
		todo = todo[1:]
		for _, z := range sortedKeys(edges[y]) {
			if z == x {
				var path []string
				for n := y; n != x; n = prev[n] {
					path = append([]string{n}, path...)
				}
				return append([]string{x}, path...)
			}
			if _, ok := prev[z]; !ok {
				prev[z] = y
				todo = append(todo, z)
			}
		}
	}
	return nil
}

func minOf(l []string) string {
	m := l[0]
	for _, s := range l {
		if s < m {
			m = s
		}
	}
	return m
}

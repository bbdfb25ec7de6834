package main

import (
	"go/types"
	"strings"
)

// Models of network connections: what is read is an unknown per read, and reads and writes are
// recorded as effects on the connection.

func init() {
	m := intrinsics
	conn := func(t *Term) *Term {
		for t != nil && t.op == "fld" && t.sym == "conn" {
			t = t.args[0]
		}
		return t
	}
	bytesT := types.Typ[types.Uint8]
	fill := func(c *Call, stream, buf *Term, exact bool) []*Term {
		n := mkLen(buf)
		in := c.fresh("netin", stream, n)
		k := n
		if exact {
			c.eff("netread", stream, n, in)
		} else {
			k = c.fresh("netgot", stream, n)
			c.eff("netreadpart", stream, n, in)
		}
		c.writeAll(buf, in, bytesT)
		return []*Term{k, mk("rderr", "", in)}
	}
	open := func(op string) intrin {
		return func(c *Call) ([]*Term, bool) {
			var as []*Term
			if c.recv != nil {
				as = append(as, conn(c.recv))
			}
			for i := range c.args {
				as = append(as, c.val(i))
			}
			v := c.fresh(op, as...)
			c.eff("call", v)
			out := []*Term{v}
			for k := 1; k < c.fn.Type().(*types.Signature).Results().Len(); k++ {
				out = append(out, mk("neterr", "", v))
			}
			return out, true
		}
	}
	m["net.DialTCP"] = open("dial")
	m["net.Dial"] = open("dial")
	m["net.DialTimeout"] = open("dial")
	m["net.ListenTCP"] = open("listen")
	m["net.Listen"] = open("listen")
	m["net.ResolveTCPAddr"] = func(c *Call) ([]*Term, bool) {
		return []*Term{mk("tcpaddr", "", c.val(0), c.val(1)), mk("addrerr", "", c.val(0), c.val(1))}, true
	}
	for _, n := range []string{"net.TCPListener.AcceptTCP", "net.TCPListener.Accept", "net.Listener.Accept"} {
		m[n] = open("accept")
	}
	m["io.ReadFull"] = func(c *Call) ([]*Term, bool) { return fill(c, conn(c.args[0]), c.args[1], true), true }
	m["io.ReadAtLeast"] = func(c *Call) ([]*Term, bool) {
		return fill(c, conn(c.args[0]), c.args[1], c.args[2] == mkLen(c.args[1])), true
	}
	for _, n := range []string{"net.conn", "net.Conn", "io.Reader", "bufio.Reader"} {
		m[n+".Read"] = func(c *Call) ([]*Term, bool) { return fill(c, conn(c.recv), c.args[0], false), true }
	}
	for _, n := range []string{"net.conn", "net.Conn"} {
		m[n+".Write"] = func(c *Call) ([]*Term, bool) {
			d := c.val(0)
			w := c.fresh("wrote", conn(c.recv), d)
			c.eff("netwrite", conn(c.recv), d, w)
			return []*Term{w, mk("wrerr", "", w)}, true
		}
		m[n+".Close"] = func(c *Call) ([]*Term, bool) {
			c.eff("netclose", conn(c.recv))
			return one(c.fresh("closeerr", conn(c.recv))), true
		}
	}
	m["bufio.NewReader"] = func(c *Call) ([]*Term, bool) {
		return one(c.fresh("bufrd", conn(c.args[0]))), true
	}
	readInto := m["binary.Read"]
	m["binary.Read"] = func(c *Call) ([]*Term, bool) {
		if out, ok := readInto(c); ok {
			return out, true
		}
		p, ok := c.ts[2].Underlying().(*types.Pointer)
		if !ok {
			return nil, false
		}
		b, ok := p.Elem().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.Uint32 && b.Kind() != types.Int32 {
			return nil, false
		}
		s := conn(c.args[0])
		in := c.fresh("netin", s, mkInt(4))
		c.eff("netread", s, mkInt(4), in)
		o := "be"
		if strings.Contains(c.args[1].String(), "ittle") {
			o = "le"
		}
		c.it.write(c.args[2], typed(mk("deu32"+o, "", in), p.Elem()), p.Elem(), c.pos)
		return one(mk("rderr", "", in)), true
	}
	write := m["binary.Write"]
	m["binary.Write"] = func(c *Call) ([]*Term, bool) {
		if out, ok := write(c); ok {
			return out, true
		}
		b, ok := c.ts[2].Underlying().(*types.Basic)
		if !ok || b.Kind() != types.Uint32 && b.Kind() != types.Int32 {
			return nil, false
		}
		o := "be"
		if strings.Contains(c.args[1].String(), "ittle") {
			o = "le"
		}
		d := mk("u32"+o, "", c.args[2])
		w := c.fresh("wrote", conn(c.args[0]), d)
		c.eff("netwrite", conn(c.args[0]), d, w)
		return one(mk("wrerr", "", w)), true
	}
}

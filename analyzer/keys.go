package main

import "go/types"

// Models of the key material: scalars, secret sharing polynomials, gob streams and files.
func init() { keyModels(intrinsics) }

func keyModels(m map[string]intrin) {
	scalarT := func(c *Call) types.Type {
		sig := c.fn.Type().(*types.Signature)
		if sig.Results().Len() > 0 {
			return sig.Results().At(0).Type()
		}
		return nil
	}
	m["kyber.Group.Scalar"] = func(c *Call) ([]*Term, bool) {
		return one(c.newPtr(mkSym("kscalar0"), scalarT(c))), true
	}
	set := func(f func(c *Call) *Term) intrin {
		return func(c *Call) ([]*Term, bool) {
			if c.recv == nil || c.recv.op != "loc" {
				return nil, false
			}
			c.it.write(c.recv, f(c), scalarT(c), c.pos)
			return one(c.recv), true
		}
	}
	deepArg := func(c *Call, i int) *Term { return c.it.deep(c.args[i], c.ts[i]) }
	m["kyber.Scalar.One"] = set(func(c *Call) *Term { return mkSym("kscalar1") })
	m["kyber.Scalar.Zero"] = set(func(c *Call) *Term { return mkSym("kscalar0") })
	m["kyber.Scalar.Set"] = set(func(c *Call) *Term { return deepArg(c, 0) })
	m["kyber.Scalar.Pick"] = set(func(c *Call) *Term {
		c.eff("random", c.args[0])
		return c.fresh("krand", c.args[0])
	})
	m["kyber.Scalar.SetBytes"] = set(func(c *Call) *Term {
		v := deepArg(c, 0)
		if v.op == "kenc" {
			return v.args[0]
		}
		return mk("kbytes", "", v)
	})
	m["kyber.Scalar.Clone"] = func(c *Call) ([]*Term, bool) {
		if c.recv == nil || c.recv.op != "loc" {
			return nil, false
		}
		return one(c.newPtr(c.it.read(c.recv, scalarT(c)), scalarT(c))), true
	}
	marshal := func(c *Call) ([]*Term, bool) {
		if c.recv != nil && c.recv.op == "sel" && c.recv.args[0].op == "pricoef" {
			return []*Term{mk("kenc", "", c.recv), mk("kencerr", "", c.recv)}, true
		}
		if c.recv == nil || c.recv.op != "loc" {
			return nil, false
		}
		root, _ := locParts(c.recv)
		v := c.it.read(c.recv, c.it.rootType[root.sym])
		return []*Term{mk("kenc", "", v), mk("kencerr", "", v)}, true
	}
	m["encoding.BinaryMarshaler.MarshalBinary"] = marshal
	m["kyber.Scalar.MarshalBinary"] = marshal
	m["share.NewPriPoly"] = func(c *Call) ([]*Term, bool) {
		c.eff("random", c.args[3])
		return one(c.fresh("pripolyrand", c.args[0], c.args[1], deepArg(c, 2), c.args[3])), true
	}
	m["share.CoefficientsToPriPoly"] = func(c *Call) ([]*Term, bool) {
		return one(mk("pripoly", "", c.args[0], deepArg(c, 1))), true
	}
	m["share.PriPoly.Coefficients"] = func(c *Call) ([]*Term, bool) {
		if c.recv.op == "pripoly" {
			return one(c.recv.args[1]), true
		}
		return one(mk("pricoef", "", c.recv)), true
	}
	m["gob.NewEncoder"] = func(c *Call) ([]*Term, bool) { return one(mk("gobencoder", "", c.args[0])), true }
	m["gob.NewDecoder"] = func(c *Call) ([]*Term, bool) { return one(mk("gobdecoder", "", c.args[0])), true }
	bufT := func(c *Call, l *Term) types.Type {
		root, _ := locParts(l)
		return c.it.rootType[root.sym]
	}
	m["gob.Encoder.Encode"] = func(c *Call) ([]*Term, bool) {
		if c.recv.op != "gobencoder" || c.recv.args[0].op != "loc" {
			return nil, false
		}
		w, v := c.recv.args[0], c.deepDyn(0)
		t := bufT(c, w)
		c.it.write(w, mkCat(c.it.read(w, t), mk("gob", "", v)), t, c.pos)
		return one(mk("goberr", "", v)), true
	}
	m["gob.Decoder.Decode"] = func(c *Call) ([]*Term, bool) {
		a := c.args[0]
		if c.recv.op != "gobdecoder" || c.recv.args[0].op != "loc" || a.op != "loc" {
			return nil, false
		}
		w := c.recv.args[0]
		in := c.it.read(w, bufT(c, w))
		root, path := locParts(a)
		if t := c.it.rootType[root.sym]; t != nil && len(path) == 0 {
			c.it.write(a, mk("ungob", typName(t), in), t, c.pos)
		}
		return one(mk("goberr", "", in)), true
	}
	for _, p := range []string{"ioutil", "os"} {
		m[p+".ReadFile"] = func(c *Call) ([]*Term, bool) {
			return []*Term{mk("file", "", c.val(0)), mk("fileerr", "", c.val(0))}, true
		}
		m[p+".WriteFile"] = func(c *Call) ([]*Term, bool) {
			err := c.fresh("fileerr", c.val(0))
			c.eff("writefile", c.val(0), c.val(1), c.args[2], err)
			return one(err), true
		}
	}
}

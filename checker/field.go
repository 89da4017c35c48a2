package main

// Field elements and the coordinates of points, for the analysis of the group
// encoding itself (C20): values are polynomials modulo the field's prime over
// uninterpreted coordinates, signs and square roots.

import (
	"go/types"
	"math/big"
)

// fnAtom applies an uninterpreted function of field elements.
func fnAtom(name string, args ...*DD) *DD {
	return lift(args, func(ts []*Term) *DD {
		return dAtom(modP, intern(&Term{op: OApp, s: name, args: append([]*Term{}, ts...)}))
	})
}

// isNeg: the canonical encoding of x is odd.
func isNeg(x *Term) *DD {
	if c, ok := x.constVal(); ok {
		r := new(big.Int).Mod(c, modulus(modP))
		return boolDD(r.Bit(0) == 1)
	}
	return mkAtom("neg", []*Term{x})
}

func dIsNeg(x *DD) *DD { return map1(x, isNeg) }

func bit(c *DD) *DD { return ite(c, dInt(1), dInt(0)) }

func isOne(x *DD) *DD { return map1(x, func(t *Term) *DD { return eqPoly(t, pInt(1)) }) }

func fieldBytes(q *Term) (v, ok *DD) {
	lenOK := eqPoly(seqLen(q), pInt(32))
	if lenOK == ddF {
		return leaf(pZero(modP)), ddF
	}
	if len(q.args) == 1 && q.args[0].op == OApp && q.args[0].s == "fe" {
		return leaf(q.args[0].args[0]), ddT
	}
	if bs, ok := knownBytes(q); ok && len(bs) == 32 {
		n := new(big.Int)
		for i := 31; i >= 0; i-- {
			c, ok := bs[i].constVal()
			if !ok {
				n = nil
				break
			}
			n.Add(n.Lsh(n, 8), c)
		}
		if n != nil {
			n.SetBit(n, 255, 0)
			return leaf(pConst(modP, n)), ddT
		}
	}
	return dAtom(modP, intern(&Term{op: OApp, s: "decFe", args: []*Term{q}})), lenOK
}

func initFieldIntrinsics() {
	F := "(*" + fieldPkg + ".Element)."
	in := intrinsics
	none := func(n int) []bool { return make([]bool, n) }
	in[F+"Zero"] = arith(0, nil, func([]*DD) *DD { return leaf(pZero(modP)) })
	in[F+"One"] = arith(0, nil, func([]*DD) *DD { return leaf(pConst(modP, big1)) })
	in[F+"Set"] = arith(1, none(1), func(x []*DD) *DD { return x[0] })
	in[F+"Add"] = arith(2, none(2), func(x []*DD) *DD { return dAdd(x[0], x[1]) })
	in[F+"Subtract"] = arith(2, none(2), func(x []*DD) *DD { return dSub(x[0], x[1]) })
	in[F+"Multiply"] = arith(2, none(2), func(x []*DD) *DD { return dMul(x[0], x[1]) })
	in[F+"Negate"] = arith(1, none(1), func(x []*DD) *DD { return dNeg(x[0]) })
	in[F+"Square"] = arith(1, none(1), func(x []*DD) *DD { return dMul(x[0], x[0]) })
	in[F+"Invert"] = arith(1, none(1), func(x []*DD) *DD { return fnAtom("feInv", x[0]) })
	in[F+"Pow22523"] = arith(1, none(1), func(x []*DD) *DD { return fnAtom("fePow", x[0]) })
	in[F+"Absolute"] = arith(1, none(1), func(x []*DD) *DD { return ite(dIsNeg(x[0]), dNeg(x[0]), x[0]) })
	in[F+"IsNegative"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		return []*DD{bit(dIsNeg(ci.get(ex, fr, st, 0)))}, true
	}
	in[F+"Equal"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		return []*DD{dEq01(ci.get(ex, fr, st, 0), ci.get(ex, fr, st, 1))}, true
	}
	in[F+"Select"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		ci.put(ex, fr, st, 0, ite(isOne(ci.args[3]), ci.get(ex, fr, st, 1), ci.get(ex, fr, st, 2)))
		return []*DD{ci.args[0]}, true
	}
	in[F+"Swap"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		a, b := ci.get(ex, fr, st, 0), ci.get(ex, fr, st, 1)
		c := isOne(ci.args[2])
		ci.put(ex, fr, st, 0, ite(c, b, a))
		ci.put(ex, fr, st, 1, ite(c, a, b))
		return nil, true
	}
	in[F+"SqrtRatio"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		u, v := ci.get(ex, fr, st, 1), ci.get(ex, fr, st, 2)
		ci.put(ex, fr, st, 0, fnAtom("sqrtRatio", u, v))
		sq := lift([]*DD{u, v}, func(ts []*Term) *DD { return mkAtom("isSquare", ts) })
		return []*DD{ci.args[0], bit(sq)}, true
	}
	in[F+"SetBytes"] = setDecoded(fieldBytes)
	in[F+"Bytes"] = encode("fe", 32, false)

	P := "(*" + edPkg + ".Point)."
	in[P+"ExtendedCoordinates"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		p := ci.getPoint(ex, fr, st, 0)
		var rs []*DD
		for i, n := range []string{"X", "Y", "Z", "T"} {
			a := ex.allocAt(ci.ctx + "#" + n)
			v := map1(p, func(t *Term) *DD {
				if e := t.singleAtom(); e != nil && e.op == OApp && e.s == "ext" && t == pAtom(modQ, e) {
					return leaf(e.args[i])
				}
				return dAtom(modP, intern(&Term{op: OApp, s: "coord" + n, args: []*Term{t}}))
			})
			ex.store(st, a, ptrElem(ci.sig.Results().At(i).Type()), v)
			rs = append(rs, leaf(a))
		}
		return rs, true
	}
	in[P+"SetExtendedCoordinates"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		var cs []*DD
		for i := 1; i <= 4; i++ {
			cs = append(cs, ci.get(ex, fr, st, i))
		}
		ci.put(ex, fr, st, 0, lift(cs, func(ts []*Term) *DD {
			return dAtom(modQ, intern(&Term{op: OApp, s: "ext", args: append([]*Term{}, ts...), point: true}))
		}))
		return []*DD{ci.args[0], dNil}, true
	}
}

// pointField is the field of an element type that holds the point.
func pointField(t types.Type) *types.Var {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(undecided("the group element type is not a struct"))
	}
	for i := 0; i < u.NumFields(); i++ {
		if primKind(u.Field(i).Type()) == "point" {
			return u.Field(i)
		}
	}
	panic(undecided("the group element type holds no point"))
}

// elemR points to the point of an element.
func elemR(ptr types.Type) func(t *Term) *DD {
	f := pointField(ptrElem(ptr))
	return func(t *Term) *DD {
		if t.op == ONil {
			return leaf(t)
		}
		return leaf(fldPtr(t, f.Name()))
	}
}

func (ex *Exec) fieldOverrides(mod string) {
	ex.override[mod+"concretely"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		ex.abs = false
		return nil, nil, true
	}
	ex.override[mod+"raw"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		return []*DD{map1(c.args[0], elemR(c.sig.Params().At(0).Type()))}, nil, true
	}
	// a point of order dividing 8
	ex.override[mod+"anyTorsion"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		a := ex.allocAt(c.ctx)
		pt := c.sig.Results().At(0).Type()
		p := elemR(pt)(a).leaf
		ex.store(st, p, pointField(ptrElem(pt)).Type(), dAtom(modQ, tTorsion))
		return []*DD{leaf(a)}, nil, true
	}
}

var tTorsion *Term

// noTorsion drops what vanishes (when multiplied by the cofactor, if by8).
func noTorsion(t *Term, by8 bool) *Term {
	if !t.has(tTorsion) && !mentions(t, tTorsion) {
		return t
	}
	var ms []Mono
	for _, m := range t.poly.ms {
		keep := true
		for _, f := range m.fs {
			if f.a == tTorsion && (by8 || m.c.BitLen() < 64 && m.c.Int64()%8 == 0) {
				keep = false
			}
		}
		if keep {
			ms = append(ms, m)
		}
	}
	return mkPoly(t.poly.mod, ms)
}

package main

// Freshness of secrets: a value is fresh if it is masked by a uniform scalar
// that is made of one whole read of the system's randomness and used nowhere
// else in it.

import (
	"go/types"
	"strings"
)

// randAtom tells whether a is a uniform scalar from 64 fresh random bytes.
func randAtom(a *Term) *Term {
	if a.op != OApp || a.s != "u64" || len(a.args) != 1 {
		return nil
	}
	q := a.args[0]
	if q.op != OSeq || len(q.args) != 1 {
		return nil
	}
	r := q.args[0]
	if r.op != OApp || !strings.HasPrefix(r.s, "rand:") || r.ln == nil || !r.ln.isInt(64) {
		return nil
	}
	return r
}

func randFactors(t *Term) []*Term {
	var out []*Term
	if t.op != OPoly {
		return nil
	}
	for _, m := range t.poly.ms {
		for _, f := range m.fs {
			if r := randAtom(f.a); r != nil {
				out = append(out, r)
			}
		}
	}
	return out
}

// masks lists the random reads that hide the value t.
func masks(t *Term, point bool) []*Term {
	if t.op != OPoly {
		return nil
	}
	uses := map[*Term]int{}
	for _, r := range randFactors(t) {
		uses[r]++
	}
	var out []*Term
	for _, m := range t.poly.ms {
		var r *Term
		n, b := 0, 0
		for _, f := range m.fs {
			n++
			if f.a == tBasePoint && f.e.isInt(1) {
				b++
			} else if x := randAtom(f.a); x != nil && f.e.isInt(1) {
				r = x
			}
		}
		if r == nil || uses[r] != 1 {
			continue
		}
		if point && n == 2 && b == 1 || !point && n == 1 {
			out = append(out, r)
		}
	}
	return out
}

// apartTerms: a is hidden by randomness that b does not use.
func apartTerms(a, b *Term, point bool) *DD {
	res := ddF
	for _, m := range masks(a, point) {
		ok := ddT
		for _, r := range randFactors(b) {
			if r.s != m.s {
				continue
			}
			same := ddT
			for i := range r.args {
				same = and(same, eqPoly(r.args[i], m.args[i]))
			}
			ok = and(ok, not(same))
		}
		res = or(res, ok)
	}
	return res
}

// secretAt is the value of a scalar, an element, or the k-th coefficient of a
// polynomial or commitment.
func (ex *Exec) secretAt(fr *Frame, st *State, c *callInfo, i int, k *Term) (v *DD, n *DD, point bool) {
	pt := c.args[i]
	t := ptrElem(c.argType(i))
	read := func(p *DD, t types.Type) (*DD, bool) {
		if pe, ok := t.Underlying().(*types.Pointer); ok {
			p = ex.loadDD(fr, st, c.in, p, t)
			t = pe.Elem()
		}
		if strings.HasSuffix(t.String(), ".Element") {
			f := t.Underlying().(*types.Struct).Field(0)
			return ex.loadDD(fr, st, c.in, map1(p, func(x *Term) *DD { return leaf(fldPtr(x, f.Name())) }), f.Type()), true
		}
		return ex.loadDD(fr, st, c.in, p, t), false
	}
	if strings.HasSuffix(t.String(), ".Scalar") || strings.HasSuffix(t.String(), ".Element") {
		v, point = read(pt, t)
		return v, dInt(1), point
	}
	u := t.Underlying().(*types.Struct)
	for j := 0; j < u.NumFields(); j++ {
		sl, ok := u.Field(j).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		s := ex.loadDD(fr, st, c.in, map1(pt, func(x *Term) *DD { return leaf(fldPtr(x, u.Field(j).Name())) }), u.Field(j).Type())
		n = map1(s, func(x *Term) *DD { return leaf(x.args[2]) })
		// inside the list only
		st = st.clone()
		st.pc = and(st.pc, dLt(leaf(k), n))
		v = map1(s, func(x *Term) *DD {
			if x.op == ONil {
				return leaf(pZero(modQ))
			}
			d, p := read(leaf(idxPtr(x.args[0], pAdd(x.args[1], k), false)), sl.Elem())
			point = p
			return d
		})
		return v, n, point
	}
	panic(undecided("no coefficients in " + t.String()))
}

func (ex *Exec) freshOverrides(mod string) {
	mk := func(name string, f func(ex *Exec, fr *Frame, st *State, c *callInfo) *DD) {
		ex.override[mod+name] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
			return []*DD{f(ex, fr, st, c)}, nil, true
		}
	}
	v1, v2 := pAtom(modZ, loopVar("coef1@", big0, bi(65535))), pAtom(modZ, loopVar("coef2@", big0, bi(65535)))
	outside := func(k *Term, n *DD) *DD { return not(dLt(leaf(k), n)) }
	single := func(name string, from int64) {
		mk(name, func(ex *Exec, fr *Frame, st *State, c *callInfo) *DD {
			a, n, point := ex.secretAt(fr, st, c, 0, v1)
			b, _, _ := ex.secretAt(fr, st, c, 0, v2)
			low := or(dLt(leaf(v1), dInt(from)), dLt(leaf(v2), dInt(from)))
			one := map1(a, func(t *Term) *DD { return boolDD(len(masks(t, point)) > 0) })
			two := map2(a, b, func(x, y *Term) *DD { return apartTerms(x, y, point) })
			return and(or(or(low, outside(v1, n)), one), orN(low, outside(v1, n), outside(v2, n), eqPoly(v1, v2), two))
		})
	}
	mk("fresh", func(ex *Exec, fr *Frame, st *State, c *callInfo) *DD {
		a, _, point := ex.secretAt(fr, st, c, 0, v1)
		return map1(a, func(t *Term) *DD { return boolDD(len(masks(t, point)) > 0) })
	})
	ex.override[mod+"freshPoint"] = ex.override[mod+"fresh"]
	single("freshExponent", 0)
	single("freshPolynomial", 1)
	mk("apart", func(ex *Exec, fr *Frame, st *State, c *callInfo) *DD {
		a, n, point := ex.secretAt(fr, st, c, 0, v1)
		b, m, _ := ex.secretAt(fr, st, c, 1, v2)
		two := map2(a, b, func(x, y *Term) *DD { return apartTerms(x, y, point) })
		return orN(outside(v1, n), outside(v2, m), two)
	})
	for _, n := range []string{"apartPoints", "apartExponents", "apartFromExponent"} {
		ex.override[mod+n] = ex.override[mod+"apart"]
	}
}

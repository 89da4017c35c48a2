package main

import "math/big"

// Text encodings of the standard library: an encoder is an injective function,
// its decoder inverts it and fails on texts that are no encoding.

// wholeOf gives the term whose bytes q is, if it is the whole of one.
func wholeOf(q *Term) *Term {
	if len(q.args) != 1 || q.args[0].op != OSub {
		return nil
	}
	s := q.args[0]
	if z, ok := s.args[1].intVal(); !ok || z != 0 || s.args[2] != pAtom(modZ, lenAtom(s.args[0])) {
		return nil
	}
	return s.args[0]
}

func textOf(kind string, args ...*Term) *Term {
	return symBytesOf(intern(&Term{op: OApp, s: kind, args: args}))
}

// encodedLen is the length of a base64 text, a function of the length of what
// it encodes.
func encodedLen(enc, n *Term) *Term {
	return intern(&Term{op: OApp, s: "len:base64", args: []*Term{enc, n}, lo: big0, hi: maxLen})
}

// textDecode gives the value of a text and whether it has one.
func textDecode(kind string, params []*Term, s *Term) (q *Term, ok *DD) {
	if w := wholeOf(s); w != nil && w.op == OApp && w.s == kind && sameIdxT(w.args[:len(w.args)-1], params) {
		return w.args[len(w.args)-1], ddT
	}
	as := append(append([]*Term{}, params...), s)
	return textOf("un"+kind, as...), mkAtom("is:"+kind, as)
}

func initTextIntrinsics() {
	in := intrinsics
	type codec struct {
		enc, dec, kind string
		recv           bool
	}
	for _, c := range []codec{
		{"(*encoding/base64.Encoding).EncodeToString", "(*encoding/base64.Encoding).DecodeString", "base64", true},
		{"encoding/hex.EncodeToString", "encoding/hex.DecodeString", "hex", false},
	} {
		k := 0
		if c.recv {
			k = 1
		}
		in[c.enc] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
			q := ex.sliceBytes(st, ci.args[k])
			return []*DD{lift(append(append([]*DD{}, ci.args[:k]...), q), func(ts []*Term) *DD { return leaf(textOf(c.kind, ts...)) })}, true
		}
		in[c.dec] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
			q := ex.sliceBytes(st, ci.args[k])
			as := append(append([]*DD{}, ci.args[:k]...), q)
			v := lift(as, func(ts []*Term) *DD { q, _ := textDecode(c.kind, ts[:k], ts[k]); return leaf(q) })
			ok := lift(as, func(ts []*Term) *DD { _, ok := textDecode(c.kind, ts[:k], ts[k]); return ok })
			return []*DD{ite(ok, ex.newBytes(st, ci.ctx, v), dNil), ite(ok, dNil, ex.newErr(ci))}, true
		}
	}
	in["(*encoding/base64.Encoding).EncodedLen"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		return []*DD{lift(ci.args[:2], func(ts []*Term) *DD { return leaf(pAtom(modZ, encodedLen(ts[0], ts[1]))) })}, true
	}
	in["(*encoding/base64.Encoding).Encode"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		q := ex.sliceBytes(st, ci.args[2])
		text := lift([]*DD{ci.args[0], q}, func(ts []*Term) *DD { return leaf(textOf("base64", ts...)) })
		fits := map2(ci.args[1], text, func(d, t *Term) *DD { return le(seqLen(t), d.args[2]) })
		if !implies(st.pc, fits) {
			return nil, false // panics
		}
		ex.copyBytes(fr, st, ci.args[1], text)
		return []*DD{}, true
	}
	for _, n := range []string{"Int31n", "Intn", "Int63n"} {
		in["math/rand."+n] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
			if ci.args[0].leaf == nil {
				return nil, false
			}
			v, ok := ci.args[0].leaf.intVal()
			if !ok || v <= 0 {
				return nil, false
			}
			return []*DD{dAtom(modZ, intern(&Term{op: OApp, s: "rand:" + ci.ctx, args: ex.loopIdx(), lo: big0, hi: bi(v - 1)}))}, true
		}
	}
	// decimal integers
	dec := func(arg, base int) func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		return func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
			if base >= 0 && !isConstInt(ci.args[base], 10) {
				return nil, false
			}
			return []*DD{map1(ci.args[arg], func(x *Term) *DD { return leaf(decText(x)) })}, true
		}
	}
	in["strconv.FormatUint"] = dec(0, 1)
	in["strconv.FormatInt"] = dec(0, 1)
	in["strconv.Itoa"] = dec(0, -1)
	parse := func(kind string, signed bool, base, bits int) func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		return func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
			n := int64(64)
			if base >= 0 {
				if !isConstInt(ci.args[base], 10) || ci.args[bits].leaf == nil {
					return nil, false
				}
				v, ok := ci.args[bits].leaf.intVal()
				if !ok || v < 0 || v > 64 {
					return nil, false
				}
				if v != 0 {
					n = v
				}
			}
			lo, hi := big.NewInt(0), new(big.Int).Lsh(big1, uint(n))
			if signed {
				hi.Rsh(hi, 1)
				lo.Neg(hi)
			}
			hi.Sub(hi, big1)
			q := ex.sliceBytes(st, ci.args[0])
			is := map1(q, func(s *Term) *DD { _, ok := decParse(kind, s); return ok })
			v := map1(q, func(s *Term) *DD { v, _ := decParse(kind, s); return leaf(v) })
			small := map1(v, func(x *Term) *DD { return le(x, pConst(modZ, hi)) })
			large := map1(v, func(x *Term) *DD { return le(pConst(modZ, lo), x) })
			bad := map1(q, func(s *Term) *DD {
				return leaf(pAtom(modZ, intern(&Term{op: OApp, s: "bad" + kind, args: []*Term{s}, lo: lo, hi: hi})))
			})
			fail := ite(is, ite(large, leaf(pConst(modZ, hi)), leaf(pConst(modZ, lo))), bad)
			ok := and(is, and(small, large))
			return []*DD{ite(ok, v, fail), ite(ok, dNil, ex.newErr(ci))}, true
		}
	}
	in["strconv.ParseUint"] = parse("dec", false, 1, 2)
	in["strconv.ParseInt"] = parse("int", true, 1, 2)
	in["strconv.Atoi"] = parse("int", true, -1, -1)
}

// decText is the decimal form of an integer.
func decText(x *Term) *Term {
	if v, ok := x.constVal(); ok {
		return mkSeq([]*Term{bytesSeg([]byte(v.String()))})
	}
	if lo, _ := prange(x); lo == nil || lo.Sign() < 0 {
		return textOf("int", x)
	}
	return textOf("dec", x)
}

func isConstInt(d *DD, n int64) bool {
	if d.leaf == nil {
		return false
	}
	v, ok := d.leaf.intVal()
	return ok && v == n
}

// constSeq gives the bytes of a constant sequence.
func constSeq(s *Term) (string, bool) {
	if s.op == OSeq && len(s.args) == 0 {
		return "", true
	}
	if s.op == OSeq && len(s.args) == 1 && s.args[0].op == OBytes {
		return s.args[0].s, true
	}
	return "", false
}

// decParse gives the value of a decimal form and whether it is one.
func decParse(kind string, s *Term) (v *Term, ok *DD) {
	if w := wholeOf(s); w != nil && w.op == OApp && (w.s == "dec" || w.s == kind) {
		return w.args[0], ddT
	}
	if c, isConst := constSeq(s); isConst {
		t := c
		if kind == "int" && len(t) > 1 && (t[0] == '-' || t[0] == '+') {
			t = t[1:]
		}
		digits := len(t) > 0
		for _, r := range t {
			digits = digits && r >= '0' && r <= '9'
		}
		if !digits {
			return pInt(0), ddF
		}
		n, _ := new(big.Int).SetString(c, 10)
		return pConst(modZ, n), ddT
	}
	lo, hi := big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big1, 64), big1)
	if kind == "int" {
		hi = new(big.Int).Sub(new(big.Int).Lsh(big1, 63), big1)
		lo = new(big.Int).Neg(new(big.Int).Lsh(big1, 63))
	}
	return pAtom(modZ, intern(&Term{op: OApp, s: "un" + kind, args: []*Term{s}, lo: lo, hi: hi})), mkAtom("is:"+kind, []*Term{s})
}

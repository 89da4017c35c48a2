package main

// Models of the functions outside the module.  Each model states what the
// function's documentation promises; the list is part of the trusted base.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool)

var intrinsics = map[string]intrinsic{}
var invokes = map[string]intrinsic{}

var tBasePoint *Term

// ---------------------------------------------------------------- helpers

func ptrElem(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

// argTypes lists the types of the arguments, receiver first.
func (ci *callInfo) argType(i int) types.Type {
	if r := ci.sig.Recv(); r != nil {
		if i == 0 {
			return r.Type()
		}
		i--
	}
	return ci.sig.Params().At(i).Type()
}

func (ci *callInfo) get(ex *Exec, fr *Frame, st *State, i int) *DD {
	return ex.loadDD(fr, st, ci.in, ci.args[i], ptrElem(ci.argType(i)))
}

func (ci *callInfo) getPoint(ex *Exec, fr *Frame, st *State, i int) *DD {
	return ex.initialised(fr, st, ci.in, ci.get(ex, fr, st, i))
}

// initialised reports the use of a zero Point, which the library refuses.
func (ex *Exec) initialised(fr *Frame, st *State, in ssa.Instruction, d *DD) *DD {
	bad := map1(d, func(t *Term) *DD { return boolDD(t.op != OPoly) })
	if c := and(bad, st.pc); c != ddF {
		e := ex.event(fr, st, in, "panic", "use of an uninitialised point")
		e.extra = c
		st.pc = and(st.pc, not(bad))
	}
	return map1(d, func(t *Term) *DD {
		if t.op != OPoly {
			return leaf(pZero(modQ))
		}
		return leaf(t)
	})
}

func (ci *callInfo) put(ex *Exec, fr *Frame, st *State, i int, v *DD) {
	ex.storeDD(fr, st, ci.in, ci.args[i], ptrElem(ci.argType(i)), v)
}

// newBytes allocates a byte slice holding a sequence.
func (ex *Exec) newBytes(st *State, ctx string, q *DD) *DD {
	a := ex.allocAt(ctx)
	sig, idx := locOf(a)
	st.mem.writeLoc(sig, idx, q, nil)
	return map1(q, func(s *Term) *DD {
		n := seqLen(s)
		return leaf(mkSlice(a, pInt(0), n, n))
	})
}

func (ex *Exec) newErr(ci *callInfo) *DD {
	return leaf(intern(&Term{op: OApp, s: "err:" + ci.ctx, args: ex.loopIdx()}))
}

var dNil = leaf(tNil)

// arith models s.Op(args...) *T with a numeric result.
func arith(n int, point []bool, f func(xs []*DD) *DD) intrinsic {
	return func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		xs := make([]*DD, n)
		for i := range xs {
			if point[i] {
				xs[i] = ci.getPoint(ex, fr, st, i+1)
			} else {
				xs[i] = ci.get(ex, fr, st, i+1)
			}
			if st.pc == ddF {
				return []*DD{dNil}, true
			}
		}
		ci.put(ex, fr, st, 0, f(xs))
		return []*DD{ci.args[0]}, true
	}
}

// atom1 applies an uninterpreted numeric function.
func atomFn(name string, mod int, point bool, args ...*DD) *DD {
	return lift(args, func(ts []*Term) *DD {
		return dAtom(mod, intern(&Term{op: OApp, s: name, args: append([]*Term{}, ts...), point: point}))
	})
}

// knownBytes gives the integer values of all bytes of a sequence of constant
// length if they are constants or single integer bytes.
func knownBytes(q *Term) ([]*Term, bool) {
	n, ok := seqLen(q).intVal()
	if !ok || n > 4096 {
		return nil, false
	}
	var out []*Term
	for _, s := range q.args {
		k, ok := segLen(s).intVal()
		if !ok {
			return nil, false
		}
		switch {
		case s.op == OBytes:
			for i := 0; i < len(s.s); i++ {
				out = append(out, pInt(int64(s.s[i])))
			}
		case s.op == OApp && s.s == "zeros":
			for i := int64(0); i < k; i++ {
				out = append(out, pInt(0))
			}
		case s.op == OApp && s.s == "b":
			out = append(out, s.args[0])
		default:
			return nil, false
		}
	}
	return out, true
}

// decode models a 32 byte canonical decoder: known encodings are inverted.
func decode(seg, dec, canon string, mod int, point bool) func(q *Term) (v, ok *DD) {
	return func(q *Term) (*DD, *DD) {
		n := seqLen(q)
		lenOK := eqPoly(n, pInt(32))
		if lenOK == ddF {
			return leaf(pZero(mod)), ddF
		}
		if len(q.args) == 1 && q.args[0].op == OApp && q.args[0].s == seg {
			return leaf(q.args[0].args[0]), ddT
		}
		if mod == modQ && !point {
			if bs, ok := knownBytes(q); ok {
				v := fromBytesLE(bs)
				lo, hi := prange(v)
				if lo != nil && hi != nil && lo.Sign() >= 0 {
					if hi.Cmp(bigQ) < 0 {
						return leaf(cast(v, modQ)), ddT
					}
					if lo.Cmp(bigQ) >= 0 {
						return leaf(pZero(mod)), ddF
					}
				}
			}
		}
		return dAtom(mod, intern(&Term{op: OApp, s: dec, args: []*Term{q}, point: point})), and(lenOK, mkAtom(canon, []*Term{q}))
	}
}

func setDecoded(f func(q *Term) (v, ok *DD)) intrinsic {
	return func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		b := ex.sliceBytes(st, ci.args[1])
		v := map1(b, func(q *Term) *DD { x, _ := f(q); return x })
		ok := map1(b, func(q *Term) *DD { _, x := f(q); return x })
		ok = restrict(ok, st.pc)
		if ok != ddF {
			old := ddF
			if ok != ddT {
				old = ci.get(ex, fr, st, 0)
				v = ite(ok, v, old)
			}
			ci.put(ex, fr, st, 0, v)
		}
		return []*DD{ite(ok, ci.args[0], dNil), ite(ok, dNil, ex.newErr(ci))}, true
	}
}

func uniform(name string, n int64, point bool) intrinsic {
	return setDecoded(func(q *Term) (*DD, *DD) {
		return dAtom(modQ, intern(&Term{op: OApp, s: name, args: []*Term{q}, point: point})), eqPoly(seqLen(q), pInt(n))
	})
}

func encode(kind string, n int64, point bool) intrinsic {
	return func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		var v *DD
		if point {
			v = ci.getPoint(ex, fr, st, 0)
		} else {
			v = ci.get(ex, fr, st, 0)
		}
		q := map1(v, func(t *Term) *DD { return leaf(mkSeq([]*Term{segOf(kind, n, t)})) })
		return []*DD{ex.newBytes(st, ci.ctx, q)}, true
	}
}

func dEq01(a, b *DD) *DD {
	return ite(map2(a, b, eqPoly), dInt(1), dInt(0))
}

// ---------------------------------------------------------------- tables

func initIntrinsics() {
	tBasePoint = intern(&Term{op: OApp, s: "B", point: true})
	tTorsion = intern(&Term{op: OApp, s: "torsion", point: true})
	initFieldIntrinsics()
	initTextIntrinsics()
	initJSONIntrinsics()
	S := "(*" + edPkg + ".Scalar)."
	P := "(*" + edPkg + ".Point)."
	sc := func(n int) []bool { return make([]bool, n) }
	pt := func(bs ...bool) []bool { return bs }
	in := intrinsics
	in[S+"Add"] = arith(2, sc(2), func(x []*DD) *DD { return dAdd(x[0], x[1]) })
	in[S+"Subtract"] = arith(2, sc(2), func(x []*DD) *DD { return dSub(x[0], x[1]) })
	in[S+"Multiply"] = arith(2, sc(2), func(x []*DD) *DD { return dMul(x[0], x[1]) })
	in[S+"MultiplyAdd"] = arith(3, sc(3), func(x []*DD) *DD { return dAdd(dMul(x[0], x[1]), x[2]) })
	in[S+"Negate"] = arith(1, sc(1), func(x []*DD) *DD { return dNeg(x[0]) })
	in[S+"Invert"] = arith(1, sc(1), func(x []*DD) *DD { return dInv(x[0]) })
	in[S+"Set"] = arith(1, sc(1), func(x []*DD) *DD { return x[0] })
	in[S+"Equal"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		return []*DD{dEq01(ci.get(ex, fr, st, 0), ci.get(ex, fr, st, 1))}, true
	}
	in[S+"Bytes"] = encode("sc", 32, false)
	in[S+"SetCanonicalBytes"] = setDecoded(decode("sc", "dec32", "canon", modQ, false))
	in[S+"SetUniformBytes"] = uniform("u64", 64, false)
	in[edPkg+".NewScalar"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		a := ex.allocAt(ci.ctx)
		t := ptrElem(ci.sig.Results().At(0).Type())
		ex.store(st, a, t, leaf(pZero(modQ)))
		return []*DD{leaf(a)}, true
	}
	in[P+"Set"] = arith(1, pt(true), func(x []*DD) *DD { return x[0] })
	in[P+"Add"] = arith(2, pt(true, true), func(x []*DD) *DD {
		return map1(dAdd(x[0], x[1]), func(t *Term) *DD { return leaf(noTorsion(t, false)) })
	})
	in[P+"Subtract"] = arith(2, pt(true, true), func(x []*DD) *DD { return dSub(x[0], x[1]) })
	in[P+"Negate"] = arith(1, pt(true), func(x []*DD) *DD { return dNeg(x[0]) })
	in[P+"ScalarBaseMult"] = arith(1, pt(false), func(x []*DD) *DD { return dMul(x[0], dAtom(modQ, tBasePoint)) })
	in[P+"ScalarMult"] = arith(2, pt(false, true), func(x []*DD) *DD { return dMul(x[0], x[1]) })
	in[P+"VarTimeDoubleScalarBaseMult"] = arith(3, pt(false, true, false), func(x []*DD) *DD {
		return dAdd(dMul(x[0], x[1]), dMul(x[2], dAtom(modQ, tBasePoint)))
	})
	in[P+"Equal"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		return []*DD{dEq01(ci.getPoint(ex, fr, st, 0), ci.getPoint(ex, fr, st, 1))}, true
	}
	in[P+"MultByCofactor"] = arith(1, pt(true), func(x []*DD) *DD {
		return map1(x[0], func(t *Term) *DD { return leaf(pScale(noTorsion(t, true), bi(8))) })
	})
	in[P+"Bytes"] = encode("rawpt", 32, true)
	in[P+"SetBytes"] = setDecoded(decode("rawpt", "decpt", "canonpt", modQ, true))
	newPoint := func(v *DD) intrinsic {
		return func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
			a := ex.allocAt(ci.ctx)
			ex.store(st, a, ptrElem(ci.sig.Results().At(0).Type()), v)
			return []*DD{leaf(a)}, true
		}
	}
	in[edPkg+".NewIdentityPoint"] = newPoint(leaf(pZero(modQ)))
	in[edPkg+".NewGeneratorPoint"] = newPoint(dAtom(modQ, tBasePoint))
	in[P+"MultiScalarMult"] = multiMult
	in[P+"VarTimeMultiScalarMult"] = multiMult

	// the ristretto group, in its abstract reading (C20 looks inside)
	R := "(*" + modulePath + "/pkg/ristretto.Element)."
	abs := func(f intrinsic) intrinsic {
		return func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
			if !ex.abs {
				return nil, false
			}
			return f(ex, fr, st, ci)
		}
	}
	el := func(ex *Exec, fr *Frame, st *State, ci *callInfo, i int) *DD {
		t := ci.argType(i)
		return ex.initialised(fr, st, ci.in, ex.loadDD(fr, st, ci.in, map1(ci.args[i], elemR(t)), pointField(ptrElem(t)).Type()))
	}
	in[R+"Equal"] = abs(func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		return []*DD{dEq01(el(ex, fr, st, ci, 0), el(ex, fr, st, ci, 1))}, true
	})
	encEl := func(kind string, n int64, str bool, withErr bool) intrinsic {
		return abs(func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
			q := map1(el(ex, fr, st, ci, 0), func(t *Term) *DD { return leaf(mkSeq([]*Term{segOf(kind, n, t)})) })
			r := q
			if !str {
				r = ex.newBytes(st, ci.ctx, q)
			}
			if withErr {
				return []*DD{r, dNil}, true
			}
			return []*DD{r}, true
		})
	}
	in[R+"Bytes"] = encEl("el", 32, false, false)
	in[R+"BytesEd25519"] = encEl("ed", 32, false, false)
	in[R+"MarshalText"] = encEl("elText", 44, false, true)
	in[R+"String"] = encEl("elText", 44, true, false)
	setEl := func(f func(q *Term) (v, ok *DD), onlyErr bool) intrinsic {
		return abs(func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
			t := pointField(ptrElem(ci.argType(0))).Type()
			b := ex.sliceBytes(st, ci.args[1])
			v := map1(b, func(q *Term) *DD { x, _ := f(q); return x })
			ok := restrict(map1(b, func(q *Term) *DD { _, x := f(q); return x }), st.pc)
			p := map1(ci.args[0], elemR(ci.argType(0)))
			if ok != ddF {
				if ok != ddT {
					v = ite(ok, v, ex.loadDD(fr, st, ci.in, p, t))
				}
				ex.storeDD(fr, st, ci.in, p, t, v)
			} else {
				ex.nilCheck(fr, st, ci.in, ci.args[0])
			}
			er := ite(ok, dNil, ex.newErr(ci))
			if onlyErr {
				return []*DD{er}, true
			}
			return []*DD{ite(ok, ci.args[0], dNil), er}, true
		})
	}
	in[R+"SetCanonicalBytes"] = setEl(decode("el", "decEl", "canonEl", modQ, true), false)
	in[R+"UnmarshalText"] = setEl(func(q *Term) (*DD, *DD) {
		if len(q.args) == 1 && q.args[0].op == OApp && q.args[0].s == "elText" {
			return leaf(q.args[0].args[0]), ddT
		}
		return dAtom(modQ, intern(&Term{op: OApp, s: "decElText", args: []*Term{q}, point: true})), mkAtom("canonElText", []*Term{q})
	}, true)
	in[R+"SetUniformBytes"] = setEl(func(q *Term) (*DD, *DD) {
		return dAtom(modQ, intern(&Term{op: OApp, s: "u64el", args: []*Term{q}, point: true})), eqPoly(seqLen(q), pInt(64))
	}, false)

	// the standard library's verification: [S]B - [c]A encodes as R
	in["crypto/ed25519.Verify"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		pk, m, sg := ex.sliceBytes(st, ci.args[0]), ex.sliceBytes(st, ci.args[1]), ex.sliceBytes(st, ci.args[2])
		ok := map1(pk, func(q *Term) *DD { return eqPoly(seqLen(q), pInt(32)) })
		if bad := and(st.pc, not(ok)); bad != ddF {
			e := ex.event(fr, st, ci.in, "panic", "ed25519: bad public key length")
			e.extra = bad
			st.pc = and(st.pc, ok)
		}
		pk, m, sg = restrict(pk, st.pc), restrict(m, st.pc), restrict(sg, st.pc)
		r := lift([]*DD{pk, m, sg}, func(ts []*Term) *DD {
			lenOK := eqPoly(seqLen(ts[2]), pInt(64))
			if lenOK == ddF {
				return ddF
			}
			A, okA := decode("ed", "decEd", "canonEd", modQ, true)(ts[0])
			encR, encS := subSeq(ts[2], pInt(0), pInt(32)), subSeq(ts[2], pInt(32), pInt(64))
			S, okS := decode("sc", "dec32", "canon", modQ, false)(encS)
			h := mkSeq([]*Term{segOf("h512", 64, mkSeq(append(append(append([]*Term{}, encR.args...), ts[0].args...), ts[1].args...)))})
			c := dAtom(modQ, intern(&Term{op: OApp, s: "u64", args: []*Term{h}}))
			P := dSub(dMul(S, dAtom(modQ, tBasePoint)), dMul(c, A))
			same := map1(P, func(t *Term) *DD { return eqTerm(mkSeq([]*Term{segOf("ed", 32, t)}), encR) })
			return andN(lenOK, okA, okS, same)
		})
		return []*DD{r}, true
	}

	// hashing
	hash := func(kind string, n int64) intrinsic {
		return func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
			q := ex.sliceBytes(st, ci.args[0])
			return []*DD{map1(q, func(t *Term) *DD { return leaf(mkSeq([]*Term{segOf(kind, n, t)})) })}, true
		}
	}
	in["crypto/sha512.Sum512"] = hash("h512", 64)
	in["crypto/sha256.Sum256"] = hash("h256", 32)
	newHash := func(kind string) intrinsic {
		return func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
			h := intern(&Term{op: OApp, s: "@" + kind + ":" + ci.ctx, args: ex.loopIdx()})
			sig, idx := locOf(h)
			st.mem.writeLoc(sig, idx, leaf(mkSeq(nil)), nil)
			return []*DD{leaf(h)}, true
		}
	}
	in["crypto/sha512.New"] = newHash("h512")
	in["crypto/sha256.New"] = newHash("h256")
	isHash := func(ci *callInfo) *Term {
		t := ci.args[0].leaf
		if t != nil && (strings.HasPrefix(t.s, "@h512:") || strings.HasPrefix(t.s, "@h256:")) {
			return t
		}
		return nil
	}
	invokes["Write"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		h := isHash(ci)
		if h == nil {
			return nil, false
		}
		q := ex.sliceBytes(st, ci.args[1])
		sig, idx := locOf(h)
		c := ex.readBase(st, sig, idx, func() *DD { return leaf(mkSeq(nil)) })
		st.mem.writeLoc(sig, idx, dConcat(c, q), nil)
		return []*DD{map1(q, func(t *Term) *DD { return leaf(seqLen(t)) }), dNil}, true
	}
	invokes["Reset"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		h := isHash(ci)
		if h == nil {
			return nil, false
		}
		sig, idx := locOf(h)
		st.mem.writeLoc(sig, idx, leaf(mkSeq(nil)), nil)
		return nil, true
	}
	invokes["Sum"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		h := isHash(ci)
		if h == nil {
			return nil, false
		}
		kind, n := h.s[1:5], int64(64)
		if kind == "h256" {
			n = 32
		}
		sig, idx := locOf(h)
		c := ex.readBase(st, sig, idx, func() *DD { return leaf(mkSeq(nil)) })
		d := map1(c, func(t *Term) *DD { return leaf(mkSeq([]*Term{segOf(kind, n, t)})) })
		return []*DD{ex.appendBytes(fr, st, ci.in, ci.args[1], d)}, true
	}
	invokes["Size"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		if h := isHash(ci); h != nil {
			if strings.HasPrefix(h.s, "@h512") {
				return []*DD{dInt(64)}, true
			}
			return []*DD{dInt(32)}, true
		}
		return nil, false
	}

	// randomness
	fill := func(arg int, errCtx string) intrinsic {
		return func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
			return ex.fillRandom(fr, st, ci, ci.args[arg])
		}
	}
	in["crypto/rand.Read"] = fill(0, "")
	in["io.ReadFull"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		if !isRandReader(ci.args[0]) {
			return nil, false
		}
		return ex.fillRandom(fr, st, ci, ci.args[1])
	}
	invokes["Read"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		if !isRandReader(ci.args[0]) {
			return nil, false
		}
		return ex.fillRandom(fr, st, ci, ci.args[1])
	}

	// encoding/binary
	for _, e := range []string{"bigEndian", "littleEndian"} {
		big := e == "bigEndian"
		for _, n := range []int{2, 4, 8} {
			n := n
			in[fmt.Sprintf("(encoding/binary.%s).PutUint%d", e, 8*n)] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
				ok := map1(ci.args[1], func(s *Term) *DD { return le(pInt(int64(n)), s.args[2]) })
				ex.bounds(fr, st, ci.in, ok, "index out of range")
				if st.pc == ddF {
					return nil, true
				}
				ex.copyBytes(fr, st, ci.args[1], encInt(ci.args[2], n, big))
				return nil, true
			}
			in[fmt.Sprintf("(encoding/binary.%s).AppendUint%d", e, 8*n)] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
				return []*DD{ex.appendBytes(fr, st, ci.in, ci.args[1], encInt(ci.args[2], n, big))}, true
			}
			in[fmt.Sprintf("(encoding/binary.%s).Uint%d", e, 8*n)] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
				ok := map1(ci.args[1], func(s *Term) *DD { return le(pInt(int64(n)), s.args[2]) })
				ex.bounds(fr, st, ci.in, ok, "index out of range")
				if st.pc == ddF {
					return []*DD{dInt(0)}, true
				}
				q := ex.sliceBytes(st, restrict(ci.args[1], st.pc))
				return []*DD{map1(q, func(t *Term) *DD {
					bs := make([]*Term, n)
					for k := range bs {
						i := k
						if big {
							i = n - 1 - k
						}
						bs[k] = byteAt(t, pInt(int64(i)))
					}
					return leaf(fromBytesLE(bs))
				})}, true
			}
		}
	}

	// errors and formatting
	in["errors.New"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		return []*DD{ex.newErr(ci)}, true
	}
	in["fmt.Errorf"] = in["errors.New"]
	strRes := func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		d := intern(&Term{op: OApp, s: "str:" + ci.ctx, args: ex.loopIdx()})
		return []*DD{leaf(symBytesOf(d))}, true
	}
	in["fmt.Sprintf"] = strRes
	in["fmt.Sprint"] = strRes
	in["fmt.Sprintln"] = strRes

	in["bytes.Equal"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		return []*DD{map2(ex.sliceBytes(st, ci.args[0]), ex.sliceBytes(st, ci.args[1]), eqSeq)}, true
	}
	in["crypto/subtle.ConstantTimeCompare"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		return []*DD{ite(map2(ex.sliceBytes(st, ci.args[0]), ex.sliceBytes(st, ci.args[1]), eqSeq), dInt(1), dInt(0))}, true
	}

	// sorting and searching
	in["sort.Search"] = sortSearch
	in["sort.Slice"] = sortSlice
	in["sort.SliceStable"] = sortSlice
	in["sort.Sort"] = sortSort
	in["sort.Stable"] = sortSort

	atomicIntrinsics(in)
	ghostIntrinsics(in)
}

func encInt(x *DD, n int, big bool) *DD {
	return map1(x, func(p *Term) *DD {
		segs := make([]*Term, n)
		for k := 0; k < n; k++ {
			i := k
			if big {
				i = n - 1 - k
			}
			segs[i] = byteSeg(byteK(p, k))
		}
		return leaf(mkSeq(segs))
	})
}

func isRandReader(d *DD) bool {
	if d.leaf == nil {
		return false
	}
	s := d.leaf.s
	return strings.Contains(s, "crypto/rand.Reader")
}

func (ex *Exec) fillRandom(fr *Frame, st *State, ci *callInfo, buf *DD) ([]*DD, bool) {
	n := map1(buf, func(s *Term) *DD { return leaf(s.args[2]) })
	fail := mkAtom("randfail:"+ci.ctx, ex.loopIdx())
	if ex.randOK {
		fail = ddF
	}
	q := map1(n, func(l *Term) *DD {
		s := &Term{op: OApp, s: "rand:" + ci.ctx, args: ex.loopIdx(), ln: l}
		return leaf(mkSeq([]*Term{intern(s)}))
	})
	ex.event(fr, st, ci.in, "rand", "", q)
	bad := map1(n, func(l *Term) *DD {
		d := intern(&Term{op: OApp, s: "partial:" + ci.ctx, args: ex.loopIdx(), ln: l})
		return leaf(mkSeq([]*Term{d}))
	})
	ex.copyBytes(fr, st, buf, ite(fail, bad, q))
	return []*DD{ite(fail, leaf(intern(&Term{op: OApp, s: "n:" + ci.ctx, args: ex.loopIdx(), lo: big0, hi: maxLen})).num(), n), ite(fail, ex.newErr(ci), dNil)}, true
}

// num turns a leaf atom into a number.
func (d *DD) num() *DD {
	if d.leaf != nil && d.leaf.op != OPoly {
		return dAtom(modZ, d.leaf)
	}
	return d
}

// multiMult is v.MultiScalarMult(scalars, points).
func multiMult(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
	ss, ps := restrict(ci.args[1], st.pc), restrict(ci.args[2], st.pc)
	eqLen := map2(ss, ps, func(a, b *Term) *DD { return eqPoly(a.args[2], b.args[2]) })
	ex.bounds(fr, st, ci.in, eqLen, "MultiScalarMult with different lengths")
	if st.pc == ddF {
		return []*DD{ci.args[0]}, true
	}
	ss, ps = restrict(ss, st.pc), restrict(ps, st.pc)
	if ss.leaf == nil || ps.leaf == nil {
		panic(undecided("MultiScalarMult of conditional slices"))
	}
	se := ci.argType(1).Underlying().(*types.Slice).Elem()
	pe := ci.argType(2).Underlying().(*types.Slice).Elem()
	at := func(i *Term) *DD {
		sp := ex.load(st, idxPtr(ss.leaf.args[0], pAdd(ss.leaf.args[1], i), false), se)
		pp := ex.load(st, idxPtr(ps.leaf.args[0], pAdd(ps.leaf.args[1], i), false), pe)
		s := ex.loadDD(fr, st, ci.in, sp, ptrElem(se))
		p := ex.initialised(fr, st, ci.in, ex.loadDD(fr, st, ci.in, pp, ptrElem(pe)))
		return dMul(s, p)
	}
	n := ss.leaf.args[2]
	var sum *DD
	if k, ok := n.intVal(); ok && k <= 16 {
		sum = leaf(pZero(modQ))
		for i := int64(0); i < k; i++ {
			sum = dAdd(sum, at(pInt(i)))
		}
	} else {
		v := loopVar("mm:"+ci.ctx, big0, maxLen)
		x := pAtom(modZ, v)
		dom := intern(&Term{op: DRange, args: []*Term{n}})
		outer := st.pc
		st.pc = and(outer, in(x, dom))
		body := at(x)
		st.pc = outer
		sum = mkSum(dom, v, body)
	}
	ci.put(ex, fr, st, 0, sum)
	return []*DD{ci.args[0]}, true
}

// sortSearch models sort.Search over a predicate of the form S[i] >= t.
func sortSearch(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
	n, f := ci.args[0], restrict(ci.args[1], st.pc)
	if n.leaf == nil || f.leaf == nil || f.leaf.op != OFunc {
		return nil, false
	}
	v := loopVar("ss:"+ci.ctx, big0, maxLen)
	x := pAtom(modZ, v)
	outer := st.clone()
	sub := st.clone()
	sub.pc = and(sub.pc, and(le(pInt(0), x), lt(x, n.leaf)))
	res, _ := ex.callFn(f.leaf.fn.(*ssa.Function), []*DD{leaf(x)}, f.leaf.dds, sub, ci.ctx, fr)
	*st = *outer
	d := restrict(res[0], and(le(pInt(0), x), lt(x, n.leaf)))
	if debugOn {
		fmt.Println("SEARCH", d, n)
	}
	// expect a single inequality between an element at x and an invariant
	for _, a := range d.atoms() {
		if a.op != OLe0 || (d != atomDD(a) && d != not(atomDD(a))) {
			continue
		}
		q := a.args[0]
		if d != atomDD(a) {
			q = pSub(one(), q)
		}
		// r - x <= 0: the predicate holds from r on
		if r := pAdd(q, x); !r.has(v) {
			return []*DD{ite(le(r, pInt(0)), dInt(0), ite(le(n.leaf, r), n, leaf(r)))}, true
		}
		// q <= 0  <=>  t - S[x] <= 0
		for _, m := range q.poly.ms {
			if len(m.fs) != 1 || m.fs[0].e != one() || m.c.Cmp(big.NewInt(-1)) != 0 {
				continue
			}
			e := m.fs[0].a
			if e.op != OBase || len(e.args) == 0 || e.args[len(e.args)-1] != x {
				continue
			}
			t := pAdd(q, pAtom(modZ, e))
			if t.has(v) {
				continue
			}
			root := ex.rootOf(e, n.leaf)
			if root == nil {
				continue
			}
			return []*DD{dAtom(modZ, intern(&Term{op: OApp, s: "searchGE", args: []*Term{root, t}, lo: big0, hi: maxLen}))}, true
		}
	}
	return nil, false
}

// rootOf finds the slice whose element e is.
func (ex *Exec) rootOf(e, n *Term) *Term {
	if r := listRoot(e.s, e.args); r != nil && n == rootLen(r) {
		return r
	}
	return nil
}

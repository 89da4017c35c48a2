package zzverif

import (
	"bytes"
	"encoding/base64"

	"filippo.io/edwards25519"
	"filippo.io/edwards25519/field"

	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

// concretely makes the analysis look inside the operations of the ristretto
// package, which it takes as the operations of a group otherwise.
func concretely() {}

// raw is the point that represents an element.
func raw(e *ristretto.Element) *edwards25519.Point { return nil }

// anyTorsion is a point whose order divides the cofactor.
func anyTorsion() *ristretto.Element { return nil }

func fe(s string) *field.Element {
	x, _ := new(field.Element).SetBytes([]byte(s))
	return x
}

// The constants of the ristretto255 specification, in little-endian order.
const (
	cD              = "\xa3\x78\x59\x13\xca\x4d\xeb\x75\xab\xd8\x41\x41\x4d\x0a\x70\x00\x98\xe8\x79\x77\x79\x40\xc7\x8c\x73\xfe\x6f\x2b\xee\x6c\x03\x52"
	cSqrtM1         = "\xb0\xa0\x0e\x4a\x27\x1b\xee\xc4\x78\xe4\x2f\xad\x06\x18\x43\x2f\xa7\xd7\xfb\x3d\x99\x00\x4d\x2b\x0b\xdf\xc1\x4f\x80\x24\x83\x2b"
	cSqrtADMinusOne = "\x1b\x2e\x7b\x49\xa0\xf6\x97\x7e\xbd\x54\x78\x1b\x0c\x8e\x9d\xaf\xfd\xd1\xf5\x31\xc9\xfc\x3c\x0f\xac\x48\x83\x2b\xbf\x31\x69\x37"
	cInvSqrtAMinusD = "\xea\x40\x5d\x80\xaa\xfd\xc8\x99\xbe\x72\x41\x5a\x17\x16\x2f\x9d\x40\xd8\x01\xfe\x91\x7b\xc2\x16\xa2\xfc\xaf\xcf\x05\x89\x6c\x78"
	cOneMinusDSQ    = "\x76\xc1\x5f\x94\xc1\x09\x7c\xe2\x0f\x35\x5e\xcd\x38\xa1\x81\x2c\xe4\xdf\x70\xbe\xdd\xab\x94\x99\xd7\xe0\xb3\xb2\xa8\x72\x90\x02"
	cDMinusOneSQ    = "\x20\x4d\xed\x44\xaa\x5a\xad\x31\x99\x19\x1e\xb0\x2c\x4a\x9e\xd2\xeb\x4e\x9b\x52\x2f\xd3\xdc\x4c\x41\x22\x6c\xf6\x7a\xb3\x68\x59"
)

func one() *field.Element                    { return new(field.Element).One() }
func mul(a, b *field.Element) *field.Element { return new(field.Element).Multiply(a, b) }
func add(a, b *field.Element) *field.Element { return new(field.Element).Add(a, b) }
func sub(a, b *field.Element) *field.Element { return new(field.Element).Subtract(a, b) }
func neg(a *field.Element) *field.Element    { return new(field.Element).Negate(a) }
func abs(a *field.Element) *field.Element    { return new(field.Element).Absolute(a) }
func sqr(a *field.Element) *field.Element    { return new(field.Element).Square(a) }
func sqrtRatio(u, v *field.Element) (*field.Element, bool) {
	r, ok := new(field.Element).SqrtRatio(u, v)
	return r, ok == 1
}
func isNeg(a *field.Element) bool  { return a.IsNegative() == 1 }
func isZero(a *field.Element) bool { return a.Equal(new(field.Element).Zero()) == 1 }

// specEncode is the encoding of the ristretto255 specification.
func specEncode(x0, y0, z0, t0 *field.Element) []byte {
	u1 := mul(add(z0, y0), sub(z0, y0))
	u2 := mul(x0, y0)
	invsqrt, _ := sqrtRatio(one(), mul(u1, sqr(u2)))
	den1 := mul(invsqrt, u1)
	den2 := mul(invsqrt, u2)
	zInv := mul(mul(den1, den2), t0)
	x, y, den := x0, y0, den2
	if isNeg(mul(t0, zInv)) {
		x = mul(y0, fe(cSqrtM1))
		y = mul(x0, fe(cSqrtM1))
		den = mul(den1, fe(cInvSqrtAMinusD))
	}
	if isNeg(mul(x, zInv)) {
		y = neg(y)
	}
	return abs(mul(den, sub(z0, y))).Bytes()
}

// GroupEncoding: the encoding of group elements.
func GroupEncoding(P *ristretto.Element) {
	concretely()
	noPanic("C20,C16 encoding an element never crashes")
	if P == nil {
		return
	}
	X, Y, Z, T := raw(P).ExtendedCoordinates()
	want := specEncode(X, Y, Z, T)
	prove("C20,C16 elements are encoded as specified", bytes.Equal(P.Bytes(), want))
	text, err := P.MarshalText()
	prove("C20 the text of an element is the base64 of its encoding", err == nil && string(text) == base64.StdEncoding.EncodeToString(want))
	prove("C20 an element prints as its text", P.String() == string(text))
}

// GroupDecoding: the decoding of group elements.
func GroupDecoding(e *ristretto.Element, data []byte) {
	concretely()
	noPanic("C20,C15,C17,C16 decoding an element never crashes")
	if e == nil {
		return
	}
	var old ristretto.Element
	*raw(&old) = *raw(e)
	r, err := e.SetCanonicalBytes(data)
	if len(data) != 32 {
		prove("C20,C15,C17 an encoding has 32 bytes", err != nil)
		return
	}
	s := fe(string(data))
	ss := sqr(s)
	u1 := sub(one(), ss)
	u2 := add(one(), ss)
	u2s := sqr(u2)
	v := sub(neg(mul(fe(cD), sqr(u1))), u2s)
	invsqrt, wasSquare := sqrtRatio(one(), mul(v, u2s))
	denX := mul(invsqrt, u2)
	denY := mul(mul(invsqrt, denX), v)
	x := abs(mul(add(s, s), denX))
	y := mul(u1, denY)
	t := mul(x, y)
	ok := bytes.Equal(s.Bytes(), data) && !isNeg(s) && wasSquare && !isNeg(t) && !isZero(y)
	prove("C20,C15,C16,C17 exactly the canonical encodings of elements are decoded", (err == nil) == ok)
	if err != nil {
		prove("C20 a refused encoding leaves the element", r == nil && raw(e).Equal(raw(&old)) == 1)
		return
	}
	var p edwards25519.Point
	p.SetExtendedCoordinates(x, y, one(), t)
	prove("C20 an encoding is decoded as specified", r == e && raw(e).Equal(&p) == 1)
}

// GroupText: the text form of group elements.
func GroupText(text []byte) {
	concretely()
	noPanic("C20 decoding the text of an element never crashes")
	var e, f ristretto.Element
	err := e.UnmarshalText(text)
	data, err1 := base64.StdEncoding.DecodeString(string(text))
	if err1 != nil {
		prove("C20 a text that is not base64 is refused", err != nil)
		return
	}
	_, err2 := f.SetCanonicalBytes(data)
	prove("C20 a text is decoded iff its bytes are", (err == nil) == (err2 == nil))
	prove("C20 a text is decoded as its bytes", err != nil || raw(&e).Equal(raw(&f)) == 1)
}

// GroupEqual: equality of group elements.
func GroupEqual(a, b *ristretto.Element) {
	concretely()
	noPanic("C20,C02,C04 comparing elements never crashes")
	if a == nil || b == nil {
		return
	}
	X1, Y1, _, _ := raw(a).ExtendedCoordinates()
	X2, Y2, _, _ := raw(b).ExtendedCoordinates()
	same := mul(X1, Y2).Equal(mul(Y1, X2)) == 1 || mul(X1, X2).Equal(mul(Y1, Y2)) == 1
	prove("C20,C02,C04 elements are equal as specified", (a.Equal(b) == 1) == same)
	prove("C20 elements are equal or not", a.Equal(b) == 1 || a.Equal(b) == 0)
}

// specMap is the map to the group of the ristretto255 specification.
func specMap(t *field.Element) *edwards25519.Point {
	minusOne := neg(one())
	r := mul(fe(cSqrtM1), sqr(t))
	u := mul(add(r, one()), fe(cOneMinusDSQ))
	v := mul(sub(minusOne, mul(r, fe(cD))), add(r, fe(cD)))
	s, wasSquare := sqrtRatio(u, v)
	c := minusOne
	if !wasSquare {
		s = neg(abs(mul(s, t)))
		c = r
	}
	n := sub(mul(mul(c, sub(r, one())), fe(cDMinusOneSQ)), v)
	w0 := mul(add(s, s), v)
	w1 := mul(n, fe(cSqrtADMinusOne))
	w2 := sub(one(), sqr(s))
	w3 := add(one(), sqr(s))
	var p edwards25519.Point
	p.SetExtendedCoordinates(mul(w0, w3), mul(w2, w1), mul(w1, w3), mul(w0, w2))
	return &p
}

// GroupMap: mapping uniform bytes to the group.
func GroupMap(data []byte) {
	concretely()
	noPanic("C20 mapping bytes to an element never crashes")
	var e ristretto.Element
	_, err := e.SetUniformBytes(data)
	prove("C20 exactly 64 bytes are mapped to the group", (err == nil) == (len(data) == 64))
	if err != nil {
		return
	}
	var p edwards25519.Point
	p.Add(specMap(fe(string(data[:32]))), specMap(fe(string(data[32:]))))
	prove("C20 bytes are mapped to the group as specified", raw(&e).Equal(&p) == 1)
}

// GroupOps: the group operations.
func GroupOps(a, b *ristretto.Element, s, t *ristretto.Scalar) {
	concretely()
	noPanic("C20 group operations never crash")
	if a == nil || b == nil || s == nil || t == nil {
		return
	}
	is := func(e *ristretto.Element, p *edwards25519.Point) bool { return raw(e).Equal(p) == 1 }
	var e ristretto.Element
	var p, q edwards25519.Point
	prove("C20 adding elements adds their points", is(e.Add(a, b), p.Add(raw(a), raw(b))))
	prove("C20 subtracting elements subtracts their points", is(e.Subtract(a, b), p.Subtract(raw(a), raw(b))))
	prove("C20 negating an element negates its point", is(e.Negate(a), p.Negate(raw(a))))
	prove("C20 multiplying an element multiplies its point", is(e.ScalarMult(s, a), p.ScalarMult(s, raw(a))))
	prove("C20 multiplying the generator multiplies its point", is(e.ScalarBaseMult(s), p.ScalarBaseMult(s)))
	p.ScalarBaseMult(t)
	q.ScalarMult(s, raw(a))
	prove("C20 the double multiplication is s*A + t*B", is(e.VarTimeDoubleScalarBaseMult(s, a, t), p.Add(&p, &q)))
	p.ScalarMult(s, raw(a))
	q.ScalarMult(t, raw(b))
	p.Add(&p, &q)
	prove("C20 the multiple multiplication is the sum of the products", is(e.MultiScalarMult([]*ristretto.Scalar{s, t}, []*ristretto.Element{a, b}), &p))
	prove("C20 the variable-time multiple multiplication is the sum of the products", is(e.VarTimeMultiScalarMult([]*ristretto.Scalar{s, t}, []*ristretto.Element{a, b}), &p))
	prove("C20 setting an element copies it", is(e.Set(a), raw(a)))
	// the result may be one of the operands
	prove("C20 adding to the first operand adds", is(e.Set(a).Add(&e, b), p.Add(raw(a), raw(b))))
	prove("C20 adding to the second operand adds", is(e.Set(b).Add(a, &e), p.Add(raw(a), raw(b))))
	prove("C20 doubling in place doubles", is(e.Set(a).Add(&e, &e), p.Add(raw(a), raw(a))))
	prove("C20 subtracting from the first operand subtracts", is(e.Set(a).Subtract(&e, b), p.Subtract(raw(a), raw(b))))
	prove("C20 subtracting into the second operand subtracts", is(e.Set(b).Subtract(a, &e), p.Subtract(raw(a), raw(b))))
	prove("C20 negating in place negates", is(e.Set(a).Negate(&e), p.Negate(raw(a))))
	prove("C20 multiplying in place multiplies", is(e.Set(a).ScalarMult(s, &e), p.ScalarMult(s, raw(a))))
	prove("C20 setting an element to itself keeps it", is(e.Set(a).Set(&e), raw(a)))
	p.ScalarBaseMult(t)
	q.ScalarMult(s, raw(a))
	prove("C20 the double multiplication in place is s*A + t*B", is(e.Set(a).VarTimeDoubleScalarBaseMult(s, &e, t), p.Add(&p, &q)))
	prove("C20 the identity is the identity", is(ristretto.NewIdentityElement(), edwards25519.NewIdentityPoint()))
	prove("C20 the generator is the generator", is(ristretto.NewGeneratorElement(), edwards25519.NewGeneratorPoint()))
	prove("C20 the new scalar is zero", scalarEq(ristretto.NewScalar(), edwards25519.NewScalar()))
}

// GroupSums: multiple multiplications of any number of elements.
func GroupSums(s []*ristretto.Scalar, a []*ristretto.Element) {
	concretely()
	noPanic("C20,C04 multiple multiplications never crash")
	if len(s) != len(a) || len(s) > 65535 {
		return
	}
	var e ristretto.Element
	var p, q edwards25519.Point
	p.Set(edwards25519.NewIdentityPoint())
	for i := range s {
		if s[i] == nil || a[i] == nil {
			return
		}
	}
	for i := range s {
		p.Add(&p, q.ScalarMult(s[i], raw(a[i])))
	}
	prove("C20 any multiple multiplication is the sum of the products", raw(e.MultiScalarMult(s, a)).Equal(&p) == 1)
	prove("C20,C04 any variable-time multiple multiplication is the sum of the products", raw(e.VarTimeMultiScalarMult(s, a)).Equal(&p) == 1)
}

// GroupEd25519: the Ed25519 encoding of a group element.
func GroupEd25519(a *ristretto.Element) {
	concretely()
	noPanic("C19,C01 the Ed25519 encoding of an element never crashes")
	if a == nil {
		return
	}
	var b ristretto.Element
	b.Add(a, anyTorsion())
	want := raw(a).Bytes()
	prove("C19,C01 the Ed25519 encoding is that of the element's point of prime order", bytes.Equal(a.BytesEd25519(), want))
	prove("C19,C01 the Ed25519 encoding does not depend on the representative", bytes.Equal(b.BytesEd25519(), want))
}

package zzverif

import (
	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/scalar"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

func anyPolynomial(name string, id party.ID) *polynomial.Polynomial { return nil }

// the coefficients of a polynomial
func coefficients(p *polynomial.Exponent) int                             { return 0 }
func coefficient(p *polynomial.Exponent, i int) *ristretto.Element        { return nil }
func scalarCoefficients(p *polynomial.Polynomial) int                     { return 0 }
func scalarCoefficient(p *polynomial.Polynomial, i int) *ristretto.Scalar { return nil }

// lastPolynomial is the last polynomial made by NewPolynomial.
func lastPolynomial() *polynomial.Polynomial { return nil }

func isZeroScalar(x *ristretto.Scalar) bool { return scalarEq(x, ristretto.NewScalar()) }

func scalarOne() *ristretto.Scalar { return party.ID(1).Scalar() }

// specEval is a_0 + a_1 x + ... + a_n x^n.
func specEval(p *polynomial.Polynomial, x *ristretto.Scalar) *ristretto.Scalar {
	sum, power := ristretto.NewScalar(), scalarOne()
	for i := 0; i < scalarCoefficients(p); i++ {
		sum.MultiplyAdd(scalarCoefficient(p, i), power, sum)
		power.Multiply(power, x)
	}
	return sum
}

func specEvalPoint(p *polynomial.Exponent, x *ristretto.Scalar) *ristretto.Element {
	sum, power := ristretto.NewIdentityElement(), scalarOne()
	for i := 0; i < coefficients(p); i++ {
		var t ristretto.Element
		sum.Add(sum, t.ScalarMult(power, coefficient(p, i)))
		power.Multiply(power, x)
	}
	return sum
}

// Polynomials: polynomials over the scalars.
func Polynomials(x, secret *ristretto.Scalar, id party.ID, degree party.Size, k int) {
	noPanic("C23,C06,C07 polynomials never crash")
	randomnessWorks()
	if x == nil || secret == nil || isZeroScalar(x) || degree > 65534 {
		return
	}
	p := anyPolynomial("A", id)
	n := scalarCoefficients(p)
	prove("C23,C06,C07 evaluating a polynomial gives its value", scalarEq(p.Evaluate(x), specEval(p, x)))
	prove("C23 the constant of a polynomial is its first coefficient", scalarEq(p.Constant(), scalarCoefficient(p, 0)))
	prove("C23 the degree of a polynomial is one less than its size", int(p.Degree()) == n-1 && p.Size() == n)
	q := polynomial.NewPolynomial(degree, secret)
	prove("C23,C06 a new polynomial has its degree and constant", q.Degree() == degree && scalarCoefficients(q) == int(degree)+1 && scalarEq(scalarCoefficient(q, 0), secret))
	p.Reset()
	prove("C23,C14 an erased polynomial keeps its degree", scalarCoefficients(p) == n)
	if k >= 0 && k < n {
		prove("C23,C14 an erased polynomial has no coefficients", isZeroScalar(scalarCoefficient(p, k)))
	}
}

// PolynomialAtZero: the shared secret is not handed out as a share.
func PolynomialAtZero(x *ristretto.Scalar, id party.ID) {
	if x == nil {
		return
	}
	p := anyPolynomial("A", id)
	p.Evaluate(x)
	prove("C23 a polynomial is not evaluated at zero", !isZeroScalar(x))
}

// CommitmentAtZero: nor is a commitment.
func CommitmentAtZero(x *ristretto.Scalar, id party.ID) {
	if x == nil {
		return
	}
	p := anyExponent("C", id)
	p.Evaluate(x)
	prove("C23 a commitment is not evaluated at zero", !isZeroScalar(x))
}

// Commitments: polynomials in the exponent.
func Commitments(x *ristretto.Scalar, id, id2 party.ID, k int, ids party.IDSlice) {
	noPanic("C23,C04,C06,C07,C05 commitments never crash")
	if x == nil || isZeroScalar(x) || k < 0 {
		return
	}
	p := anyExponent("C", id)
	n := coefficients(p)
	prove("C23,C04,C06,C07 evaluating a commitment gives its value", pointEq(p.Evaluate(x), specEvalPoint(p, x)))
	prove("C23,C05,C06 the constant of a commitment is its first coefficient", pointEq(p.Constant(), coefficient(p, 0)))
	prove("C23,C05 the degree of a commitment is one less than its size", int(p.Degree()) == n-1)
	q := anyPolynomial("A", id)
	m := scalarCoefficients(q)
	e := polynomial.NewPolynomialExponent(q)
	prove("C23,C05,C06 a commitment has the degree of its polynomial", coefficients(e) == m)
	if k < m {
		var want ristretto.Element
		want.ScalarBaseMult(scalarCoefficient(q, k))
		prove("C23,C06,C07 a commitment commits to every coefficient", pointEq(coefficient(e, k), &want))
	}
	for _, i := range ids {
		if i == 0 {
			return
		}
	}
	all := p.EvaluateMulti(ids)
	for _, i := range ids {
		prove("C23 a commitment is evaluated for every party", all[i] != nil && pointEq(all[i], specEvalPoint(p, i.Scalar())))
	}
	_, has := all[id2]
	prove("C23 a commitment is evaluated for the parties only", has == member(id2, ids))
}

// CommitmentSums: adding commitments.
func CommitmentSums(id, id2 party.ID, k int) {
	noPanic("C23,C06,C16 adding commitments never crashes")
	if k < 0 {
		return
	}
	p, q := anyExponent("C", id), anyExponent("D", id2)
	n, m := coefficients(p), coefficients(q)
	c := p.Copy()
	prove("C23 a copy has the same degree", coefficients(c) == n)
	if k < n {
		prove("C23,C06 a copy has the same coefficients", pointEq(coefficient(c, k), coefficient(p, k)))
	}
	prove("C23,C16 a commitment equals its copy", c.Equal(p))
	prove("C23,C16 commitments are equal iff their coefficients are", !c.Equal(q) || n == m && (k >= n || pointEq(coefficient(c, k), coefficient(q, k))))
	err := c.Add(q)
	prove("C23 commitments can be added iff they have the same degree", (err == nil) == (n == m))
	prove("C23,C06 the sum has the same degree", coefficients(c) == n)
	if k < n {
		want := ristretto.NewIdentityElement().Set(coefficient(p, k))
		if err == nil {
			want.Add(want, coefficient(q, k))
		}
		prove("C23,C06 commitments are added coefficient by coefficient", pointEq(coefficient(c, k), want))
	}
	s, err := polynomial.Sum([]*polynomial.Exponent{p, q})
	prove("C23 commitments can be summed iff they have the same degree", (err == nil) == (n == m))
	if err == nil {
		prove("C23 the sum of commitments is their sum", s.Equal(c))
	}
	prove("C23 a commitment equals no other kind of value", !c.Equal(nil) && !c.Equal(id) && !c.Equal(anyPolynomial("f", id)))
	c.Reset()
	prove("C23 an erased commitment keeps its degree", coefficients(c) == n)
	if k < n {
		prove("C23 an erased commitment has no coefficients", pointEq(coefficient(c, k), ristretto.NewIdentityElement()))
		prove("C23 erasing a copy leaves the original", pointEq(coefficient(p, k), coefficient(anyExponent("C", id), k)))
	}
}

// Interpolation: Lagrange coefficients.
func Interpolation(id party.ID, ids party.IDSlice) {
	noPanic("C23,C01,C02,C17 interpolating never crashes")
	l, err := id.Lagrange(ids)
	repeated := false
	for i, x := range ids {
		for j, y := range ids {
			if i != j && x == y {
				repeated = true
			}
		}
	}
	if repeated {
		return
	}
	prove("C23,C01,C02,C17 a Lagrange coefficient exists iff the party is in the list", (err == nil) == (id != 0 && member(id, ids)))
	if err != nil {
		prove("C23 no Lagrange coefficient is returned with an error", l == nil)
		return
	}
	num, den := scalarOne(), scalarOne()
	for _, x := range ids {
		if x != id {
			num.Multiply(num, x.Scalar())
			var t ristretto.Scalar
			t.Subtract(x.Scalar(), id.Scalar())
			den.Multiply(den, &t)
		}
	}
	prove("C23,C01,C02,C17 a Lagrange coefficient is that of interpolation at zero", scalarEq(ristretto.NewScalar().Multiply(l, den), num) && !isZeroScalar(den))
}

// SharedSecrets: sharing a secret for tests and trusted dealers.
func SharedSecrets(ids party.IDSlice, threshold party.Size, x party.ID) {
	noPanic("C23 sharing a secret never crashes")
	randomnessWorks()
	if len(ids) > 65535 || int(threshold) >= len(ids) {
		return
	}
	for _, id := range ids {
		if id == 0 {
			return
		}
	}
	secret, shares := helpers.GenerateSecrets(ids, threshold)
	f := lastPolynomial()
	prove("C23 the sharing polynomial has the threshold as its degree", scalarCoefficients(f) == int(threshold)+1)
	prove("C23 the sharing polynomial has the secret as its constant", scalarEq(scalarCoefficient(f, 0), secret))
	for _, id := range ids {
		s := shares[id]
		prove("C23 every party has a share", s != nil)
		if s != nil {
			var pub ristretto.Element
			pub.ScalarBaseMult(&s.Secret)
			prove("C23 a share is for its party", s.ID == id && pointEq(&s.Public, &pub))
			prove("C23 a share is the value of the sharing polynomial", scalarEq(&s.Secret, specEval(f, id.Scalar())))
		}
	}
	_, has := shares[x]
	prove("C23 only the parties have shares", has == member(x, ids))
}

// SharedPublic: the public side of shared secrets.
func SharedPublic(shares map[party.ID]*eddsa.SecretShare, threshold party.Size, x party.ID) {
	noPanic("C23 publishing shared secrets never crashes")
	if len(shares) <= int(threshold) {
		return
	}
	for id, s := range shares {
		if id == 0 || s == nil {
			return
		}
	}
	p := helpers.GeneratePublic(threshold, shares)
	prove("C23 public key material has its threshold", p.Threshold == threshold && len(p.PartyIDs) == len(shares))
	s, has := shares[x]
	if has {
		var pub ristretto.Element
		pub.ScalarBaseMult(&s.Secret)
		prove("C23 a public share is that of the secret share", p.Shares[x] != nil && pointEq(p.Shares[x], &pub))
	}
	_, has2 := p.Shares[x]
	prove("C23 exactly the parties have public shares", has2 == has)
}

// Scalars: scalars of small integers.
func Scalars(x uint32) {
	noPanic("C23 making scalars never crashes")
	want, _ := ristretto.NewScalar().SetCanonicalBytes([]byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24), 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
	prove("C23 a scalar of an integer is that integer", scalarEq(scalar.NewScalarUInt32(x), want))
}

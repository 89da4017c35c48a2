package zzverif

import (
	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

// fresh: masked by a uniform scalar made of 64 bytes of the system's
// randomness that is used nowhere else in the value.
func fresh(s *ristretto.Scalar) bool                                     { return false }
func freshPoint(p *ristretto.Element) bool                               { return false }
func freshExponent(c *polynomial.Exponent) bool                          { return false }
func freshPolynomial(p *polynomial.Polynomial) bool                      { return false }
func apart(a, b *ristretto.Scalar) bool                                  { return false }
func apartPoints(a, b *ristretto.Element) bool                           { return false }
func apartExponents(a, b *polynomial.Exponent) bool                      { return false }
func apartFromExponent(a *ristretto.Scalar, b *polynomial.Exponent) bool { return false }

// FreshNonces: the nonces of a signing session.
func FreshNonces(ids party.IDSlice, secret *eddsa.SecretShare, public *eddsa.Public, m1, m2 []byte) {
	ra, _, e := sign.NewRound(ids, secret, public, m1)
	if e != nil {
		return
	}
	rb, _, e := sign.NewRound(ids, secret, public, m2)
	if e != nil {
		return
	}
	ma, ea := ra.GenerateMessages()
	mb, eb := rb.GenerateMessages()
	if ea != nil || eb != nil || len(ma) != 1 || len(mb) != 1 {
		return
	}
	a, b := ma[0].Sign1, mb[0].Sign1
	prove("C08 both nonces of a signing session are fresh", freshPoint(&a.Di) && freshPoint(&a.Ei))
	prove("C08 the two nonces of a signing session are independent", apartPoints(&a.Di, &a.Ei) && apartPoints(&a.Ei, &a.Di))
	prove("C08 nonces of two signing sessions are independent", apartPoints(&a.Di, &b.Di) && apartPoints(&a.Di, &b.Ei) && apartPoints(&a.Ei, &b.Di) && apartPoints(&a.Ei, &b.Ei))
}

// FreshKeys: the secrets of a key generation session.
func FreshKeys(self party.ID, ids party.IDSlice, threshold party.Size) {
	if len(ids) == 0 || len(ids) > 65535 {
		return
	}
	ra, _, e := keygen.NewRound(self, ids, threshold)
	if e != nil {
		return
	}
	rb, _, e := keygen.NewRound(self, ids, threshold)
	if e != nil {
		return
	}
	ma, ea := ra.GenerateMessages()
	mb, eb := rb.GenerateMessages()
	if ea != nil || eb != nil || len(ma) != 1 || len(mb) != 1 {
		return
	}
	a, b := ma[0].KeyGen1, mb[0].KeyGen1
	prove("C08 all coefficients of a key generation session are fresh", freshExponent(a.Commitments))
	prove("C08 the coefficients of two key generation sessions are independent", apartExponents(a.Commitments, b.Commitments))
	prove("C08 the nonce of the proof of knowledge is fresh", fresh(&a.Proof.R) && apartFromExponent(&a.Proof.R, a.Commitments) && apart(&a.Proof.R, &b.Proof.R))
}

// FreshSharing: the polynomials that share a secret, and proofs of knowledge.
func FreshSharing(degree party.Size, secret *ristretto.Scalar, id party.ID, public *ristretto.Element, ctx []byte) {
	prove("C08 the nonce of a proof of knowledge is fresh", fresh(&zk.NewSchnorrProof(id, public, ctx, secret).R))
	if degree > 65534 {
		return
	}
	p := polynomial.NewPolynomial(degree, secret)
	prove("C08 a sharing polynomial has fresh coefficients but for its constant", freshPolynomial(p))
}

package zzverif

import (
	"crypto/ed25519"
	"crypto/sha512"

	"bytes"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

// Compat: signatures and keys are Ed25519 signatures and keys.
func Compat(A, R *ristretto.Element, S *ristretto.Scalar, message []byte) {
	noPanic("C19,C01,C02 verifying and encoding signatures never crashes")
	if A == nil || R == nil || S == nil {
		return
	}
	pk := eddsa.NewPublicKeyFromPoint(A)
	sig := &eddsa.Signature{R: *R, S: *S}
	encA := A.BytesEd25519()
	encR := R.BytesEd25519()
	prove("C19,C01 a public key is its Ed25519 encoding", bytes.Equal(pk.ToEd25519(), encA))
	ed := sig.ToEd25519()
	prove("C19 a signature has 64 bytes", len(ed) == 64)
	if len(ed) != 64 {
		return
	}
	prove("C19 a signature is the encodings of its nonce and response", bytes.Equal(ed[:32], encR) && bytes.Equal(ed[32:], S.Bytes()))
	var data []byte
	data = append(data, encR...)
	data = append(data, encA...)
	data = append(data, message...)
	h := sha512.Sum512(data)
	want, _ := ristretto.NewScalar().SetUniformBytes(h[:])
	c := eddsa.ComputeChallenge(R, pk, message)
	prove("C19,C01,C02 the challenge is the Ed25519 challenge", scalarEq(c, want))
	// [S]B = R + [c]A
	var l, r ristretto.Element
	l.ScalarBaseMult(S)
	r.ScalarMult(want, A)
	r.Add(&r, R)
	prove("C19,C01 a signature verifies iff it satisfies the Ed25519 equation", pk.Verify(message, sig) == pointEq(&l, &r))
	prove("C19,C01 a signature verifies iff Ed25519 accepts it", pk.Verify(message, sig) == ed25519.Verify(pk.ToEd25519(), message, ed))
	prove("C19 verifying leaves the signature and key", pointEq(&sig.R, R) && scalarEq(&sig.S, S) && pk.Equal(eddsa.NewPublicKeyFromPoint(A)))
}

package zzverif

import (
	"crypto/sha512"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

// SignSession runs one signer through the protocol with arbitrary messages of
// the others.
func SignSession(ids party.IDSlice, secret *eddsa.SecretShare, public *eddsa.Public, message []byte) {
	noPanic("C15,C25,C01,C03,C02 no message of a participant crashes a signing session")
	randomnessWorks()
	if secret == nil || public == nil || public.GroupKey == nil {
		return
	}
	for _, id := range public.PartyIDs {
		if public.Shares[id] == nil {
			return // incomplete key material, refused when it is made
		}
	}
	self := secret.ID
	r0, out, err := sign.NewRound(ids, secret, public, message)
	if err != nil {
		return
	}
	m0, e0 := r0.GenerateMessages()
	prove("C25 a failure of this party's first round names nobody", e0 == nil || e0.PartyID == 0)
	if e0 != nil {
		return
	}
	prove("C01 round 0 sends one message", len(m0) == 1)
	if len(m0) != 1 {
		return
	}
	prove("C01 round 0 sends a Sign1 message", m0[0].Type == messages.MessageTypeSign1 && m0[0].Sign1 != nil)
	prove("C01 round 0 sends from self to everyone", m0[0].From == self && m0[0].To == 0)
	r1 := r0.NextRound()
	for _, id := range ids {
		if id == self {
			continue
		}
		m := messages.NewSign1(id, anyPoint("D", id), anyPoint("E", id))
		e := r1.ProcessMessage(m)
		ident := ristretto.NewIdentityElement()
		bad := pointEq(anyPoint("D", id), ident) || pointEq(anyPoint("E", id), ident)
		prove("C03 identity commitments are rejected", (e != nil) == bad)
		if e != nil {
			prove("C03,C25 a rejected commitment is blamed on its sender", e.PartyID == id)
			return
		}
	}
	m1, e1 := r1.GenerateMessages()
	prove("C25 a failure of this party's own names nobody", e1 == nil || e1.PartyID == 0)
	if e1 != nil {
		return
	}
	prove("C01 round 1 sends one message", len(m1) == 1)
	if len(m1) != 1 {
		return
	}
	r2 := r1.NextRound()
	// the binding factors
	D := func(id party.ID) *ristretto.Element {
		if id == self {
			return &m0[0].Sign1.Di
		}
		return anyPoint("D", id)
	}
	E := func(id party.ID) *ristretto.Element {
		if id == self {
			return &m0[0].Sign1.Ei
		}
		return anyPoint("E", id)
	}
	mh := sha512.Sum512(message)
	var list []byte
	for _, id := range ids {
		list = append(list, id.Bytes()...)
		list = append(list, D(id).Bytes()...)
		list = append(list, E(id).Bytes()...)
	}
	rho := func(id party.ID) *ristretto.Scalar {
		buf := []byte("FROST-SHA512")
		buf = append(buf, id.Bytes()...)
		buf = append(buf, mh[:]...)
		buf = append(buf, list...)
		h := sha512.Sum512(buf)
		s, _ := ristretto.NewScalar().SetUniformBytes(h[:])
		return s
	}
	R := ristretto.NewIdentityElement()
	for _, id := range ids {
		var t ristretto.Element
		t.ScalarMult(rho(id), E(id))
		t.Add(&t, D(id))
		R.Add(R, &t)
	}
	c := eddsa.ComputeChallenge(R, public.GroupKey, message)
	lam := func(id party.ID) *ristretto.Scalar {
		l, _ := id.Lagrange(ids)
		return l
	}
	for _, id := range ids {
		if id == self {
			continue
		}
		z := anyScalar("z", id)
		e := r2.ProcessMessage(messages.NewSign2(id, z))
		// z B = D + rho E + c lambda Y
		var want, t ristretto.Element
		want.ScalarMult(rho(id), E(id))
		want.Add(&want, D(id))
		t.ScalarMult(lam(id), public.Shares[id])
		t.ScalarMult(c, &t)
		want.Add(&want, &t)
		var got ristretto.Element
		got.ScalarBaseMult(z)
		prove("C02,C03 a signature share is accepted iff it satisfies the share equation", (e == nil) == pointEq(&got, &want))
		if e != nil {
			prove("C02,C25 a rejected signature share is blamed on its sender", e.PartyID == id)
			return
		}
	}
	before := out.Signature
	prove("C01 no signature is output before the last round", before == nil)
	_, e2 := r2.GenerateMessages()
	sig := out.Signature
	if e2 != nil {
		prove("C01 no signature is output on failure", sig == nil)
		prove("C25 a failure without a refused message names nobody", e2.PartyID == 0)
		return
	}
	prove("C01 a signature is output", sig != nil)
	prove("C01 the signature verifies", public.GroupKey.Verify(message, sig))
	prove("C01,C03 the nonce commitment of the signature is the sum of the bound commitments", pointEq(&sig.R, R))
	S := ristretto.NewScalar()
	for _, id := range ids {
		if id == self {
			S.Add(S, &m1[0].Sign2.Zi)
		} else {
			S.Add(S, anyScalar("z", id))
		}
	}
	prove("C01 the response of the signature is the sum of the shares", scalarEq(&sig.S, S))
}

// HonestSign: a signer that follows the protocol is accepted, and a session of
// accepted signers with matching keys ends with a signature.
func HonestSign(ids party.IDSlice, secret *eddsa.SecretShare, public *eddsa.Public, message []byte) {
	noPanic("C27 no signing session of honest parties crashes")
	randomnessWorks()
	if secret == nil || public == nil || public.GroupKey == nil {
		return
	}
	for _, id := range public.PartyIDs {
		if public.Shares[id] == nil {
			return // incomplete key material, refused when it is made
		}
	}
	self := secret.ID
	r0, out, err := sign.NewRound(ids, secret, public, message)
	if err != nil {
		return
	}
	lam := func(id party.ID) *ristretto.Scalar {
		l, _ := id.Lagrange(ids)
		return l
	}
	// the keys fit together, as those of key generation do
	var own ristretto.Element
	own.ScalarBaseMult(&secret.Secret)
	if !pointEq(&own, public.Shares[self]) {
		return
	}
	key := ristretto.NewIdentityElement()
	for _, id := range ids {
		var t ristretto.Element
		if id == self {
			t.ScalarMult(lam(id), &own)
		} else {
			t.ScalarMult(lam(id), public.Shares[id])
		}
		key.Add(key, &t)
	}
	if !pointEq(key, keyPoint(public.GroupKey)) {
		return
	}
	m0, e0 := r0.GenerateMessages()
	prove("C27 committing to nonces does not fail", e0 == nil && len(m0) == 1)
	if e0 != nil || len(m0) != 1 {
		return
	}
	_, em := m0[0].MarshalBinary()
	prove("C27 the nonce commitments can be sent", em == nil)
	r1 := r0.NextRound()
	for _, id := range ids {
		if id != self && r1.ProcessMessage(messages.NewSign1(id, anyPoint("D", id), anyPoint("E", id))) != nil {
			return
		}
	}
	m1, e1 := r1.GenerateMessages()
	prove("C27 signing does not fail", e1 == nil && len(m1) == 1)
	if e1 != nil || len(m1) != 1 {
		return
	}
	_, em = m1[0].MarshalBinary()
	prove("C27 the signature share can be sent", em == nil)
	prove("C27 a signature share is sent by self to everyone", m1[0].From == self && m1[0].To == 0 && m1[0].Type == messages.MessageTypeSign2 && m1[0].Sign2 != nil)
	D := func(id party.ID) *ristretto.Element {
		if id == self {
			return &m0[0].Sign1.Di
		}
		return anyPoint("D", id)
	}
	E := func(id party.ID) *ristretto.Element {
		if id == self {
			return &m0[0].Sign1.Ei
		}
		return anyPoint("E", id)
	}
	mh := sha512.Sum512(message)
	var list []byte
	for _, id := range ids {
		list = append(list, id.Bytes()...)
		list = append(list, D(id).Bytes()...)
		list = append(list, E(id).Bytes()...)
	}
	rho := func(id party.ID) *ristretto.Scalar {
		buf := []byte("FROST-SHA512")
		buf = append(buf, id.Bytes()...)
		buf = append(buf, mh[:]...)
		buf = append(buf, list...)
		h := sha512.Sum512(buf)
		s, _ := ristretto.NewScalar().SetUniformBytes(h[:])
		return s
	}
	R := ristretto.NewIdentityElement()
	for _, id := range ids {
		var t ristretto.Element
		t.ScalarMult(rho(id), E(id))
		t.Add(&t, D(id))
		R.Add(R, &t)
	}
	c := eddsa.ComputeChallenge(R, public.GroupKey, message)
	var z, want, t ristretto.Element
	z.ScalarBaseMult(&m1[0].Sign2.Zi)
	want.ScalarMult(rho(self), E(self))
	want.Add(&want, D(self))
	t.ScalarMult(lam(self), public.Shares[self])
	t.ScalarMult(c, &t)
	want.Add(&want, &t)
	prove("C27 the signature share sent satisfies the share equation", pointEq(&z, &want))
	r2 := r1.NextRound()
	for _, id := range ids {
		if id != self && r2.ProcessMessage(messages.NewSign2(id, anyScalar("z", id))) != nil {
			return
		}
	}
	_, e2 := r2.GenerateMessages()
	prove("C27 when all signature shares are accepted the session ends with a signature", e2 == nil && out.Signature != nil)
}

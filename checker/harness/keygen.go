package zzverif

import (
	"crypto/sha512"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

func anyExponent(name string, id party.ID) *polynomial.Exponent { return nil }

// anyExponentOf is a commitment polynomial of the given degree.
func anyExponentOf(name string, id party.ID, degree int) *polynomial.Exponent { return nil }
func anyProof(name string, id party.ID) *zk.Schnorr                           { return nil }

func scalarOf(id party.ID) *ristretto.Scalar { return id.Scalar() }

// specChallenge is the Fiat-Shamir challenge of the proof of knowledge.
func specChallenge(id party.ID, ctx []byte, public, M *ristretto.Element) *ristretto.Scalar {
	var buf []byte
	buf = append(buf, byte(id>>8), byte(id))
	buf = append(buf, ctx...)
	buf = append(buf, public.Bytes()...)
	buf = append(buf, M.Bytes()...)
	h := sha512.Sum512(buf)
	s, _ := ristretto.NewScalar().SetUniformBytes(h[:])
	return s
}

// specVerify: S = H(id, ctx, P, R*B - S*P)
func specVerify(id party.ID, ctx []byte, public *ristretto.Element, p *zk.Schnorr) bool {
	var a, b ristretto.Element
	a.ScalarBaseMult(&p.R)
	b.ScalarMult(&p.S, public)
	a.Subtract(&a, &b)
	return scalarEq(&p.S, specChallenge(id, ctx, public, &a))
}

// KeyGenCommitments runs one party through the commitment round of distributed
// key generation with arbitrary messages of the others.
func KeyGenCommitments(self party.ID, ids party.IDSlice, threshold party.Size) {
	noPanic("C15,C25,C06,C07,C05,C27 no commitment of a participant crashes key generation")
	randomnessWorks()
	if len(ids) == 0 || len(ids) > 65535 {
		return // not a list of distinct identifiers
	}
	r0, _, err := keygen.NewRound(self, ids, threshold)
	if err != nil {
		return
	}
	m0, e0 := r0.GenerateMessages()
	prove("C25 a failure of this party's first round names nobody", e0 == nil || e0.PartyID == 0)
	prove("C27 committing to a polynomial does not fail", e0 == nil)
	if e0 != nil {
		return
	}
	prove("C06 round 0 sends one message", len(m0) == 1)
	if len(m0) != 1 {
		return
	}
	prove("C06,C27 round 0 sends a KeyGen1 message", m0[0].Type == messages.MessageTypeKeyGen1 && m0[0].KeyGen1 != nil)
	prove("C06,C07,C27 round 0 sends from self to everyone", m0[0].From == self && m0[0].To == 0)
	var ctx [32]byte
	own := m0[0].KeyGen1.Commitments
	prove("C05,C27 the proof of knowledge sent is valid for the sender and the commitment", specVerify(self, ctx[:], own.Constant(), m0[0].KeyGen1.Proof))
	prove("C06,C27 the commitments have the degree of the threshold", own.Degree() == threshold)
	_, em := m0[0].MarshalBinary()
	prove("C27 the commitment can be sent", em == nil)
	r1 := r0.NextRound()
	for _, id := range ids {
		if id == self {
			continue
		}
		C, P := anyExponent("C", id), anyProof("P", id)
		e := r1.ProcessMessage(messages.NewKeyGen1(id, P, C))
		ok := specVerify(id, ctx[:], C.Constant(), P) && C.Degree() == threshold
		prove("C05 commitments are accepted iff the proof holds for their sender and the degree is the threshold", (e == nil) == ok)
		if e != nil {
			prove("C05,C25 a rejected commitment is blamed on its sender", e.PartyID == id)
			return
		}
	}
}

// KeyGenSession runs one party through distributed key generation with
// arbitrary shares of the others; the degree of the commitments is the threshold
// (KeyGenCommitments shows that others are rejected).
func KeyGenSession(self party.ID, ids party.IDSlice, threshold party.Size) {
	noPanic("C15,C25,C06,C07,C04,C27 no share of a participant crashes key generation")
	randomnessWorks()
	if len(ids) == 0 || len(ids) > 65535 {
		return // not a list of distinct identifiers
	}
	_ = anyExponentOf("C", self, int(threshold))
	r0, out, err := keygen.NewRound(self, ids, threshold)
	if err != nil {
		return
	}
	m0, e0 := r0.GenerateMessages()
	if e0 != nil {
		return
	}
	if len(m0) != 1 {
		return
	}
	own := m0[0].KeyGen1.Commitments
	r1 := r0.NextRound()
	for _, id := range ids {
		if id == self {
			continue
		}
		if r1.ProcessMessage(messages.NewKeyGen1(id, anyProof("P", id), anyExponentOf("C", id, int(threshold)))) != nil {
			return
		}
	}
	m1, e1 := r1.GenerateMessages()
	prove("C25 a failure of this party's own names nobody", e1 == nil || e1.PartyID == 0)
	prove("C27 sharing the polynomial does not fail", e1 == nil)
	if e1 != nil {
		return
	}
	others := 0
	for _, id := range ids {
		if id != self {
			others++
		}
	}
	prove("C06,C07,C27 one share for each other party", len(m1) == others)
	for _, m := range m1 {
		prove("C07,C27 shares are sent as KeyGen2 messages by self", m.Type == messages.MessageTypeKeyGen2 && m.From == self)
		prove("C07 shares are never broadcast nor sent to self", m.To != 0 && m.To != self)
		prove("C07,C27 shares are sent to participants", ids.Contains(m.To))
		_, em := m.MarshalBinary()
		prove("C27 a share can be sent", em == nil)
		var x ristretto.Element
		x.ScalarBaseMult(&m.KeyGen2.Share)
		prove("C06,C07,C27 a share is the evaluation of the committed polynomial at its addressee", pointEq(&x, own.Evaluate(m.To.Scalar())))
	}
	r2 := r1.NextRound()
	for _, id := range ids {
		if id == self {
			continue
		}
		s := anyScalar("s", id)
		var x ristretto.Element
		x.ScalarBaseMult(s)
		ok := pointEq(&x, anyExponentOf("C", id, int(threshold)).Evaluate(self.Scalar()))
		e := r2.ProcessMessage(messages.NewKeyGen2(id, self, s))
		prove("C04 a share is accepted iff it matches the sender's commitments", (e == nil) == ok)
		if e != nil {
			prove("C04,C25 a rejected share is blamed on its sender", e.PartyID == id)
			return
		}
	}
	prove("C06 nothing is output before the last round", out.Public == nil && out.SecretKey == nil)
	m2, e2 := r2.GenerateMessages()
	prove("C06,C27 the last round succeeds", e2 == nil && len(m2) == 0)
	if e2 != nil {
		return
	}
	prove("C06 keys are output", out.Public != nil && out.SecretKey != nil)
	if out.Public == nil || out.SecretKey == nil {
		return
	}
	prove("C06 the threshold is output", out.Public.Threshold == threshold)
	prove("C06 the participants are output", out.Public.PartyIDs.Equal(ids))
	prove("C06 the secret share is for self", out.SecretKey.ID == self)
	share := func(x party.ID) *ristretto.Element {
		s := ristretto.NewIdentityElement()
		for _, id := range ids {
			if id == self {
				s.Add(s, own.Evaluate(x.Scalar()))
			} else {
				s.Add(s, anyExponentOf("C", id, int(threshold)).Evaluate(x.Scalar()))
			}
		}
		return s
	}
	for _, id := range ids {
		prove("C06 a public share is the sum of the commitments at its party", pointEq(out.Public.Shares[id], share(id)))
	}
	var x ristretto.Element
	x.ScalarBaseMult(&out.SecretKey.Secret)
	prove("C06 the secret share matches the public share", pointEq(&x, share(self)))
	key := ristretto.NewIdentityElement()
	for _, id := range ids {
		if id == self {
			key.Add(key, own.Constant())
		} else {
			key.Add(key, anyExponentOf("C", id, int(threshold)).Constant())
		}
	}
	prove("C06 the group key is the sum of the constants", pointEq(keyPoint(out.Public.GroupKey), key))
}

package zzverif

import (
	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

// forgotten: no secret can be reached from x: no randomness, nothing of the
// parameter secret, and no share anyScalar("s", _).
func forgotten(x interface{}) bool { return false }

// noRandom: no scalar reachable from x is a random scalar itself.
func noRandom(x interface{}) bool { return false }

// keptNowhere: no package variable holds or refers to a secret.
func keptNowhere() bool { return false }

// EraseSign: whenever a signing session ends, its secrets are erased.
func EraseSign(ids party.IDSlice, secret *eddsa.SecretShare, public *eddsa.Public, message []byte) {
	noPanic("C14 EraseSign: nothing crashes")
	noLeak("C28 signing")
	randomnessWorks()
	if secret == nil || public == nil || public.GroupKey == nil {
		return
	}
	for _, id := range public.PartyIDs {
		if public.Shares[id] == nil {
			return // incomplete key material, refused when it is made
		}
	}
	self := secret.ID
	r0, out, err := sign.NewRound(ids, secret, public, message)
	if err != nil {
		return
	}
	if anyBool("stop", 0) {
		r0.Reset()
		prove("C14 a new signing session forgets its secrets", forgotten(r0))
		return
	}
	_, e0 := r0.GenerateMessages()
	if e0 != nil {
		return
	}
	prove("C28 committing to nonces leaves no secret in package data", keptNowhere())
	if anyBool("stop", 1) {
		r0.Reset()
		prove("C14 a signing session forgets its secrets after committing", forgotten(r0))
		return
	}
	r1 := r0.NextRound()
	for _, id := range ids {
		if id == self {
			continue
		}
		if r1.ProcessMessage(messages.NewSign1(id, anyPoint("D", id), anyPoint("E", id))) != nil {
			r1.Reset()
			prove("C14 a signing session that refuses a commitment forgets its secrets", forgotten(r1))
			return
		}
	}
	m1, e1 := r1.GenerateMessages()
	if e1 != nil {
		return
	}
	for _, m := range m1 {
		published(&m.Sign2.Zi)
	}
	prove("C28 signing leaves no secret in package data", keptNowhere())
	if anyBool("stop", 2) {
		r1.Reset()
		prove("C14 a signing session forgets its secrets after signing", forgotten(r1))
		return
	}
	r2 := r1.NextRound()
	for _, id := range ids {
		if id == self {
			continue
		}
		if r2.ProcessMessage(messages.NewSign2(id, anyScalar("z", id))) != nil {
			r2.Reset()
			prove("C14 a signing session that refuses a share forgets its secrets", forgotten(r2))
			return
		}
	}
	_, e2 := r2.GenerateMessages()
	if e2 != nil {
		return
	}
	prove("C28 ending a signing session leaves no secret in package data", keptNowhere())
	sig := out.Signature
	if sig == nil {
		return
	}
	R, S := sig.R, sig.S
	r2.Reset()
	prove("C14 a signing session that has ended forgets its secrets", forgotten(r2))
	prove("C14 ending a signing session keeps its output", out.Signature == sig && pointEq(&R, &sig.R) && scalarEq(&S, &sig.S))
}

// EraseKeyGen: whenever a key generation session ends, its secrets are erased.
func EraseKeyGen(self party.ID, ids party.IDSlice, threshold party.Size) {
	noPanic("C14 EraseKeyGen: nothing crashes")
	noLeak("C28 key generation")
	randomnessWorks()
	if len(ids) == 0 || len(ids) > 65535 {
		return // not a list of distinct identifiers
	}
	_ = anyExponentOf("C", self, int(threshold))
	r0, out, err := keygen.NewRound(self, ids, threshold)
	if err != nil {
		return
	}
	if anyBool("stop", 0) {
		r0.Reset()
		prove("C14 a new key generation session forgets its secrets", forgotten(r0))
		return
	}
	_, e0 := r0.GenerateMessages()
	if e0 != nil {
		return
	}
	prove("C28 committing to a polynomial leaves no secret in package data", keptNowhere())
	if anyBool("stop", 1) {
		r0.Reset()
		prove("C14 a key generation session forgets its secrets after committing", forgotten(r0))
		return
	}
	r1 := r0.NextRound()
	for _, id := range ids {
		if id == self {
			continue
		}
		if r1.ProcessMessage(messages.NewKeyGen1(id, anyProof("P", id), anyExponentOf("C", id, int(threshold)))) != nil {
			r1.Reset()
			prove("C14 a key generation session that refuses a commitment forgets its secrets", forgotten(r1))
			return
		}
	}
	_, e1 := r1.GenerateMessages()
	if e1 != nil {
		return
	}
	prove("C28 sharing leaves no secret in package data", keptNowhere())
	if anyBool("stop", 2) {
		r1.Reset()
		prove("C14 a key generation session forgets its secrets after sharing", forgotten(r1))
		return
	}
	r2 := r1.NextRound()
	prove("C14 the polynomial is erased once all shares are made", noRandom(r2))
	for _, id := range ids {
		if id == self {
			continue
		}
		m := messages.NewKeyGen2(id, self, anyScalar("s", id))
		if r2.ProcessMessage(m) != nil {
			r2.Reset()
			prove("C14 a key generation session that refuses a share forgets its secrets", forgotten(r2))
			return
		}
		prove("C14 a received share is erased from its message", scalarEq(&m.KeyGen2.Share, ristretto.NewScalar()))
	}
	prove("C28 receiving shares leaves no secret in package data", keptNowhere())
	if anyBool("stop", 3) {
		r2.Reset()
		prove("C14 a key generation session forgets the shares received", forgotten(r2))
		return
	}
	_, e2 := r2.GenerateMessages()
	if e2 != nil || out.SecretKey == nil || out.Public == nil || out.Public.GroupKey == nil {
		return
	}
	prove("C28 ending a key generation session leaves no secret in package data", keptNowhere())
	secret, key := out.SecretKey.Secret, *out.Public.GroupKey
	r2.Reset()
	prove("C14 a key generation session that has ended forgets its secrets", forgotten(r2))
	prove("C14 ending a key generation session keeps its output", scalarEq(&out.SecretKey.Secret, &secret) && out.Public.GroupKey.Equal(&key))
	for _, id := range ids {
		prove("C14 ending a key generation session keeps the public shares", out.Public.Shares[id] != nil)
	}
}

// LeakRefused: a commitment polynomial of any degree is refused without
// showing a secret.
func LeakRefused(self, from party.ID, ids party.IDSlice, threshold party.Size) {
	noLeak("C28 a refused commitment")
	randomnessWorks()
	if len(ids) == 0 || len(ids) > 65535 {
		return // not a list of distinct identifiers
	}
	r0, _, err := keygen.NewRound(self, ids, threshold)
	if err != nil {
		return
	}
	if _, e0 := r0.GenerateMessages(); e0 != nil {
		return
	}
	_ = r0.NextRound().ProcessMessage(messages.NewKeyGen1(from, anyProof("P", from), anyExponent("C", from)))
}

// LeakFailing: when randomness fails, what was drawn is not shown.
func LeakFailing(self party.ID, ids party.IDSlice, threshold party.Size, secret *eddsa.SecretShare, public *eddsa.Public, message []byte) {
	noLeak("C28 failing randomness")
	if k0, _, err := keygen.NewRound(self, ids, threshold); err == nil {
		_, _ = k0.GenerateMessages()
	}
	if secret == nil || public == nil || public.GroupKey == nil {
		return
	}
	for _, id := range public.PartyIDs {
		if public.Shares[id] == nil {
			return // incomplete key material, refused when it is made
		}
	}
	r0, _, err := sign.NewRound(ids, secret, public, message)
	if err == nil {
		_, _ = r0.GenerateMessages()
	}
}

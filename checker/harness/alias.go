package zzverif

import (
	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
)

// untouched: nothing reachable from x was changed.
func untouched(x interface{}) bool { return false }

// disjoint: no memory is reachable from both.
func disjoint(x, y interface{}) bool { return false }

// AliasSign: a signing session and its surroundings.
func AliasSign(ids party.IDSlice, secret *eddsa.SecretShare, public *eddsa.Public, message []byte, x party.ID) {
	noPanic("C21 AliasSign: nothing crashes")
	randomnessWorks()
	if secret == nil || public == nil || public.GroupKey == nil {
		return
	}
	for _, id := range public.PartyIDs {
		if public.Shares[id] == nil {
			return // incomplete key material, refused when it is made
		}
	}
	self := secret.ID
	r0, out, err := sign.NewRound(ids, secret, public, message)
	if err != nil {
		return
	}
	prove("C21 a signing session does not share the key share", disjoint(r0, secret))
	prove("C21 a signing session does not share the public shares", disjoint(r0, public.Shares))
	m0, e0 := r0.GenerateMessages()
	if e0 != nil {
		return
	}
	prove("C21 commitments sent are not shared with the session", disjoint(m0, r0))
	r1 := r0.NextRound()
	mx1 := map[party.ID]*messages.Message{}
	for _, id := range ids {
		if id == self {
			continue
		}
		m := messages.NewSign1(id, anyPoint("D", id), anyPoint("E", id))
		if r1.ProcessMessage(m) != nil {
			return
		}
		mx1[id] = m
	}
	if mx1[x] != nil {
		prove("C21 commitments received are not shared with the session", disjoint(mx1[x], r1))
	}
	m1, e1 := r1.GenerateMessages()
	if e1 != nil {
		return
	}
	prove("C21 shares sent are not shared with the session", disjoint(m1, r1))
	r2 := r1.NextRound()
	mx2 := map[party.ID]*messages.Message{}
	for _, id := range ids {
		if id == self {
			continue
		}
		m := messages.NewSign2(id, anyScalar("z", id))
		if r2.ProcessMessage(m) != nil {
			return
		}
		mx2[id] = m
	}
	if mx2[x] != nil {
		prove("C21 shares received are not shared with the session", disjoint(mx2[x], r2))
	}
	_, e2 := r2.GenerateMessages()
	if e2 != nil {
		return
	}
	r2.Reset()
	prove("C21 a signature is not shared with the session", disjoint(out, r2))
	prove("C21 signing does not change the key share", untouched(secret))
	prove("C21 signing does not change the public key material", untouched(public))
	prove("C21 signing does not change the participant list", untouched(ids))
	prove("C21 signing does not change the message", untouched(message))
}

// AliasKeyGen: a key generation session and its surroundings.
func AliasKeyGen(self party.ID, ids party.IDSlice, threshold party.Size, x party.ID) {
	noPanic("C21 AliasKeyGen: nothing crashes")
	randomnessWorks()
	if len(ids) == 0 || len(ids) > 65535 {
		return // not a list of distinct identifiers
	}
	_ = anyExponentOf("C", self, int(threshold))
	r0, out, err := keygen.NewRound(self, ids, threshold)
	if err != nil {
		return
	}
	m0, e0 := r0.GenerateMessages()
	if e0 != nil {
		return
	}
	prove("C21 polynomial commitments sent are not shared with the session", disjoint(m0, r0))
	r1 := r0.NextRound()
	mx1 := map[party.ID]*messages.Message{}
	for _, id := range ids {
		if id == self {
			continue
		}
		m := messages.NewKeyGen1(id, anyProof("P", id), anyExponentOf("C", id, int(threshold)))
		if r1.ProcessMessage(m) != nil {
			return
		}
		mx1[id] = m
	}
	if mx1[x] != nil {
		prove("C21 polynomial commitments received are not shared with the session", disjoint(mx1[x], r1))
	}
	m1, e1 := r1.GenerateMessages()
	if e1 != nil {
		return
	}
	prove("C21 key shares sent are not shared with the session", disjoint(m1, r1))
	r2 := r1.NextRound()
	mx2 := map[party.ID]*messages.Message{}
	for _, id := range ids {
		if id == self {
			continue
		}
		m := messages.NewKeyGen2(id, self, anyScalar("s", id))
		if r2.ProcessMessage(m) != nil {
			return
		}
		mx2[id] = m
	}
	if mx2[x] != nil {
		prove("C21 key shares received are not shared with the session", disjoint(mx2[x], r2))
	}
	_, e2 := r2.GenerateMessages()
	if e2 != nil {
		return
	}
	r2.Reset()
	prove("C21 keys are not shared with the session", disjoint(out, r2))
	prove("C21 keys are not shared with the participant list", disjoint(out, ids))
	prove("C21 key generation does not change the participant list", untouched(ids))
}

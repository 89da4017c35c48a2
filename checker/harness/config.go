package zzverif

import (
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

// validParties: ids is strictly ascending, has no 0, and has self.
func validParties(ids party.IDSlice, self party.ID) bool {
	has := false
	for i, id := range ids {
		if id == 0 {
			return false
		}
		if i > 0 && ids[i-1] >= id {
			return false
		}
		if id == self {
			has = true
		}
	}
	return has
}

func member(id party.ID, ids party.IDSlice) bool {
	for _, x := range ids {
		if x == id {
			return true
		}
	}
	return false
}

// SignConfig: starting a signing session.
func SignConfig(ids party.IDSlice, secret *eddsa.SecretShare, public *eddsa.Public, message []byte, timeout time.Duration) {
	noPanic("C18 starting a signing session never crashes")
	randomnessWorks()
	if len(ids) > 65535 || secret == nil || public == nil || public.GroupKey == nil {
		return
	}
	for _, id := range public.PartyIDs {
		if public.Shares[id] == nil {
			return // incomplete key material, refused when it is made
		}
	}
	ok := validParties(ids, secret.ID) && len(ids) > int(public.Threshold)
	for _, id := range ids {
		if !member(id, public.PartyIDs) {
			ok = false
		}
	}
	r, out, err := sign.NewRound(ids, secret, public, message)
	prove("C18 a signing session starts iff its configuration is valid", (err == nil) == ok)
	if err != nil {
		prove("C18 a refused signing session returns no round", r == nil && out == nil)
	} else {
		prove("C18 a signing session has its configuration", r.SelfID() == secret.ID && r.PartyIDs().Equal(ids))
		prove("C18 a signing session has an empty output", out != nil && out.Signature == nil)
	}
	s, out2, err := frost.NewSignState(ids, secret, public, message, timeout)
	prove("C18 a signing state starts iff its configuration is valid", (err == nil) == ok)
	if err != nil {
		prove("C18 a refused signing session returns no state", s == nil && out2 == nil)
	} else {
		prove("C18 a signing state is not finished", s != nil && out2 != nil && out2.Signature == nil && !s.IsFinished())
	}
}

// KeyGenConfig: starting a key generation session.
func KeyGenConfig(self party.ID, ids party.IDSlice, threshold party.Size, timeout time.Duration) {
	noPanic("C18 starting a key generation session never crashes")
	randomnessWorks()
	if len(ids) > 65535 {
		return
	}
	ok := validParties(ids, self) && threshold > 0 && int(threshold) < len(ids)
	r, out, err := keygen.NewRound(self, ids, threshold)
	prove("C18 a key generation session starts iff its configuration is valid", (err == nil) == ok)
	if err != nil {
		prove("C18 a refused key generation session returns no round", r == nil && out == nil)
	} else {
		prove("C18 a key generation session has its configuration", r.SelfID() == self && r.PartyIDs().Equal(ids))
		prove("C18 a key generation session has an empty output", out != nil && out.Public == nil && out.SecretKey == nil)
	}
	s, out2, err := frost.NewKeygenState(self, ids, threshold, timeout)
	prove("C18 a key generation state starts iff its configuration is valid", (err == nil) == ok)
	if err != nil {
		prove("C18 a refused key generation session returns no state", s == nil && out2 == nil)
	} else {
		prove("C18 a key generation state is not finished", s != nil && out2 != nil && out2.Public == nil && out2.SecretKey == nil && !s.IsFinished())
	}
}

// RoundConfig: the part shared by all protocols.
func RoundConfig(self party.ID, ids party.IDSlice) {
	noPanic("C18 starting a session never crashes")
	b, err := state.NewBaseRound(self, ids)
	prove("C18 a session starts iff its parties are valid", (err == nil) == validParties(ids, self))
	if err != nil {
		prove("C18 a refused session returns no round", b == nil)
	} else {
		prove("C18 a session has its parties", b.SelfID() == self && b.PartyIDs().Equal(ids))
	}
}

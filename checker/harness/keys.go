package zzverif

import (
	"bytes"
	"encoding/json"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

// keyPoint is the group element of a public key.
func keyPoint(pk *eddsa.PublicKey) *ristretto.Element { return nil }

func interpolate(ids party.IDSlice, shares map[party.ID]*ristretto.Element) *ristretto.Element {
	sum := ristretto.NewIdentityElement()
	for _, id := range ids {
		l, _ := id.Lagrange(ids)
		var t ristretto.Element
		t.ScalarMult(l, shares[id])
		sum.Add(sum, &t)
	}
	return sum
}

// KeyPublic: making public key material.
func KeyPublic(shares map[party.ID]*ristretto.Element, threshold party.Size, x party.ID) {
	noPanic("C17 making public key material never crashes")
	ok := len(shares) > int(threshold)
	for id, s := range shares {
		if id == 0 || s == nil {
			ok = false
		}
	}
	p, err := eddsa.NewPublic(shares, threshold)
	prove("C17 public key material is accepted iff it is complete and has more parties than the threshold", (err == nil) == ok)
	if err != nil {
		prove("C17 refused public key material is not returned", p == nil)
		return
	}
	prove("C17 public key material has its threshold", p.Threshold == threshold)
	_, is := shares[x]
	prove("C17 the parties are those with a share", p.PartyIDs.Contains(x) == is && len(p.PartyIDs) == len(shares))
	prove("C17 public key material has its shares", !is || p.Shares[x] != nil && pointEq(p.Shares[x], shares[x]))
	for i := range p.PartyIDs {
		prove("C17 the parties are in ascending order", i == 0 || p.PartyIDs[i-1] < p.PartyIDs[i])
	}
	prove("C17 the group key interpolates the shares", p.GroupKey != nil && pointEq(keyPoint(p.GroupKey), interpolate(p.PartyIDs, shares)))
}

// KeySecretBinary: the binary encoding of key shares.
func KeySecretBinary(data []byte, id party.ID, secret *ristretto.Scalar, s *eddsa.SecretShare) {
	noPanic("C17,C06 decoding a key share never crashes")
	if secret == nil || s == nil {
		return
	}
	// whatever s held before
	err := s.UnmarshalBinary(data)
	ok := len(data) == 34
	if ok {
		ok = goodScalar(data[2:])
	}
	prove("C17 a key share decodes iff it is an identifier and a canonical scalar", (err == nil) == ok)
	if err == nil {
		var want ristretto.Element
		want.ScalarBaseMult(&s.Secret)
		prove("C17 a decoded key share has its public share", pointEq(&s.Public, &want))
		again, err := s.MarshalBinary()
		prove("C17 a decoded key share encodes to what it was decoded from", err == nil && bytes.Equal(again, data))
	}
	t := eddsa.NewSecretShare(id, secret)
	var want ristretto.Element
	want.ScalarBaseMult(secret)
	prove("C17,C06 a new key share is for its party and secret", t.ID == id && scalarEq(&t.Secret, secret) && pointEq(&t.Public, &want))
	enc, err := t.MarshalBinary()
	prove("C17 a key share encodes", err == nil)
	if err != nil {
		return
	}
	var u eddsa.SecretShare
	prove("C17 an encoded key share decodes to itself", u.UnmarshalBinary(enc) == nil && u.ID == id && scalarEq(&u.Secret, secret) && pointEq(&u.Public, &t.Public) && u.Equal(t))
}

// KeySignature: the encoding of signatures.
func KeySignature(data []byte, id party.ID, s *eddsa.Signature) {
	noPanic("C17 decoding a signature never crashes")
	if s == nil {
		return
	}
	err := s.UnmarshalBinary(data)
	ok := len(data) == 64
	if ok {
		ok = goodPoint(data[:32]) && goodScalar(data[32:])
	}
	prove("C17 a signature decodes iff it is a canonical element and a canonical scalar", (err == nil) == ok)
	if err == nil {
		again, err := s.MarshalBinary()
		prove("C17 a decoded signature encodes to what it was decoded from", err == nil && bytes.Equal(again, data))
	}
	t := &eddsa.Signature{R: *anyPoint("R", id), S: *anyScalar("S", id)}
	enc, err := t.MarshalBinary()
	prove("C17 a signature encodes", err == nil && t.Size() == len(enc))
	more, err := t.BytesAppend([]byte{7, 9})
	prove("C17 a signature is appended as it encodes", err == nil && len(more) == len(enc)+2 && more[0] == 7 && more[1] == 9 && bytes.Equal(more[2:], enc))
	var u eddsa.Signature
	prove("C17 an encoded signature decodes to itself", u.UnmarshalBinary(enc) == nil && pointEq(&u.R, &t.R) && scalarEq(&u.S, &t.S) && u.Equal(t))
}

// jsonMapElements is what encoding and decoding a map of elements makes of it.
func jsonMapElements(m map[party.ID]*ristretto.Element) map[party.ID]*ristretto.Element {
	n := make(map[party.ID]*ristretto.Element, len(m))
	for id, e := range m {
		if e == nil {
			n[id] = nil
		} else {
			n[id] = ristretto.NewIdentityElement().Set(e)
		}
	}
	return n
}

type specShare struct {
	ID     uint16 `json:"id"`
	Secret []byte `json:"secret"`
}

// KeySecretJSON: the JSON form of key shares.
func KeySecretJSON(data []byte, id party.ID, secret *ristretto.Scalar, s *eddsa.SecretShare) {
	noPanic("C17 decoding a key share from JSON never crashes")
	if secret == nil || s == nil {
		return
	}
	err := s.UnmarshalJSON(data)
	var d specShare
	ok := json.Unmarshal(data, &d) == nil
	if ok {
		ok = goodScalar(d.Secret)
	}
	prove("C17 a key share decodes from JSON iff it has an identifier and a canonical scalar", (err == nil) == ok)
	if err == nil {
		var want ristretto.Element
		want.ScalarBaseMult(&s.Secret)
		prove("C17 a key share decoded from JSON has the identifier and secret of the JSON", uint16(s.ID) == d.ID && bytes.Equal(s.Secret.Bytes(), d.Secret))
		prove("C17 a key share decoded from JSON has its public share", pointEq(&s.Public, &want))
	}
	t := eddsa.NewSecretShare(id, secret)
	enc, err := json.Marshal(t)
	prove("C17 a key share encodes to JSON", err == nil)
	if err != nil {
		return
	}
	var u eddsa.SecretShare
	prove("C17 a key share encoded to JSON decodes to itself", json.Unmarshal(enc, &u) == nil && u.ID == id && scalarEq(&u.Secret, secret) && pointEq(&u.Public, &t.Public) && u.Equal(t))
}

// KeyJSON: the JSON form of public keys.
func KeyJSON(data []byte, A *ristretto.Element) {
	noPanic("C17 decoding a public key from JSON never crashes")
	if A == nil {
		return
	}
	pk := eddsa.NewPublicKeyFromPoint(A)
	err := pk.UnmarshalJSON(data)
	e := ristretto.NewIdentityElement().Set(A)
	err2 := json.Unmarshal(data, e)
	prove("C17 a public key decodes from JSON iff its element does", (err == nil) == (err2 == nil))
	prove("C17 a public key decodes from JSON to its element", err != nil || pointEq(keyPoint(pk), e))
	k := eddsa.NewPublicKeyFromPoint(A)
	enc, err := json.Marshal(k)
	prove("C17 a public key encodes to JSON", err == nil)
	if err == nil {
		var back eddsa.PublicKey
		prove("C17 a public key encoded to JSON decodes to itself", json.Unmarshal(enc, &back) == nil && pointEq(keyPoint(&back), A))
	}
}

type specPublic struct {
	Threshold uint16                          `json:"t"`
	GroupKey  *eddsa.PublicKey                `json:"groupkey"`
	Shares    map[party.ID]*ristretto.Element `json:"shares"`
}

// KeyPublicJSON: the JSON form of public key material.
func KeyPublicJSON(data []byte, x party.ID, p *eddsa.Public) {
	noPanic("C17 decoding public key material from JSON never crashes")
	if p == nil {
		return
	}
	err := p.UnmarshalJSON(data)
	var d specPublic
	ok := json.Unmarshal(data, &d) == nil && d.GroupKey != nil
	if ok {
		q, err := eddsa.NewPublic(d.Shares, party.Size(d.Threshold))
		ok = err == nil && pointEq(keyPoint(q.GroupKey), keyPoint(d.GroupKey))
	}
	prove("C17 public key material decodes from JSON iff it is valid and has its own group key", (err == nil) == ok)
	if err != nil {
		return
	}
	prove("C17 public key material decoded from JSON has the threshold of the JSON", uint16(p.Threshold) == d.Threshold)
	prove("C17 public key material decoded from JSON has the group key of the JSON", p.GroupKey != nil && pointEq(keyPoint(p.GroupKey), keyPoint(d.GroupKey)))
	want, is := d.Shares[x]
	prove("C17 public key material decoded from JSON has the parties of the JSON", p.PartyIDs.Contains(x) == is && len(p.PartyIDs) == len(d.Shares))
	prove("C17 public key material decoded from JSON has the shares of the JSON", !is || p.Shares[x] != nil && pointEq(p.Shares[x], want))
}

// KeyPublicRoundTrip: public key material survives its JSON form.
func KeyPublicRoundTrip(shares map[party.ID]*ristretto.Element, threshold party.Size) {
	noPanic("C17 encoding public key material to JSON never crashes")
	p, err := eddsa.NewPublic(shares, threshold)
	if err != nil {
		return
	}
	enc, err := json.Marshal(p)
	prove("C17 public key material encodes to JSON", err == nil)
	if err != nil {
		return
	}
	var q eddsa.Public
	err = json.Unmarshal(enc, &q)
	prove("C17 public key material encoded to JSON decodes", err == nil)
	if err == nil {
		prove("C17 public key material encoded to JSON decodes to itself", q.Equal(p) && q.Threshold == threshold && pointEq(keyPoint(q.GroupKey), keyPoint(p.GroupKey)))
	}
}

// KeyEqual: which key shares and signatures are equal.
func KeyEqual(a, b *eddsa.SecretShare, s, r *eddsa.Signature) {
	noPanic("C17 KeyEqual: nothing crashes")
	if a == nil || b == nil || s == nil || r == nil {
		return
	}
	prove("C17 key shares are equal iff their identifiers and secrets are", a.Equal(b) == (a.ID == b.ID && scalarEq(&a.Secret, &b.Secret)))
	prove("C17 signatures are equal iff their nonces and responses are", s.Equal(r) == (pointEq(&s.R, &r.R) && scalarEq(&s.S, &r.S)))
}

// KeyPoint: public keys and their elements.
func KeyPoint(a, b *ristretto.Element) {
	noPanic("C17,C01,C06,C19 KeyPoint: nothing crashes")
	if a == nil || b == nil {
		return
	}
	p, q := eddsa.NewPublicKeyFromPoint(a), eddsa.NewPublicKeyFromPoint(b)
	prove("C17,C01,C06,C19 a public key has its element", pointEq(keyPoint(p), a))
	prove("C17 public keys are equal iff their elements are", p.Equal(q) == pointEq(a, b))
}

// PublicEqual: which public key material is equal.
func PublicEqual(p, q *eddsa.Public) {
	noPanic("C17 PublicEqual: nothing crashes")
	if p == nil || q == nil || p.GroupKey == nil || q.GroupKey == nil {
		return
	}
	same := len(p.PartyIDs) == len(q.PartyIDs)
	if same {
		for i := range p.PartyIDs {
			if p.PartyIDs[i] != q.PartyIDs[i] {
				same = false
			}
		}
	}
	if same {
		q.PartyIDs = p.PartyIDs
	}
	if !complete(p) || !complete(q) {
		return
	}
	if same {
		same = p.Threshold == q.Threshold && pointEq(keyPoint(p.GroupKey), keyPoint(q.GroupKey))
		for _, id := range p.PartyIDs {
			if !pointEq(p.Shares[id], q.Shares[id]) {
				same = false
			}
		}
	}
	prove("C17 public key material is equal iff its threshold, parties, group key and shares are", p.Equal(q) == same)
}

// complete: p has the shares of exactly its parties.
func complete(p *eddsa.Public) bool {
	if len(p.Shares) != len(p.PartyIDs) {
		return false
	}
	for _, id := range p.PartyIDs {
		if p.Shares[id] == nil {
			return false
		}
	}
	for id := range p.Shares {
		if !member(id, p.PartyIDs) {
			return false
		}
	}
	return true
}

package zzverif

import (
	"bytes"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/polynomial"
	"github.com/taurusgroup/frost-ed25519/pkg/internal/zk"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

func goodScalar(b []byte) bool {
	var s ristretto.Scalar
	_, err := s.SetCanonicalBytes(b)
	return err == nil
}

func goodPoint(b []byte) bool {
	var p ristretto.Element
	_, err := p.SetCanonicalBytes(b)
	return err == nil
}

// DecodeMessage: which byte strings decode, and to what.
func DecodeMessage(data []byte) {
	noPanic("C15,C16 decoding a message never crashes")
	var m messages.Message
	err := m.UnmarshalBinary(data)
	if len(data) < 5 {
		prove("C15 a truncated header is refused", err != nil)
		return
	}
	typ := messages.MessageType(data[0])
	from := party.ID(data[1])<<8 + party.ID(data[2])
	to := party.ID(data[3])<<8 + party.ID(data[4])
	prove("C15 a message without a sender is refused", from != 0 || err != nil)
	body := data[5:]
	switch typ {
	case messages.MessageTypeSign1:
		ok := from != 0 && to == 0 && len(body) == 64
		if ok {
			ok = goodPoint(body[:32]) && goodPoint(body[32:])
		}
		prove("C15 a Sign1 message decodes iff it is a broadcast of two canonical elements", (err == nil) == ok)
		if err == nil {
			prove("C16 a decoded Sign1 message has its content", m.Sign1 != nil && bytes.Equal(m.Sign1.Di.Bytes(), body[:32]) && bytes.Equal(m.Sign1.Ei.Bytes(), body[32:]))
		}
	case messages.MessageTypeSign2:
		ok := from != 0 && to == 0 && len(body) == 32
		if ok {
			ok = goodScalar(body)
		}
		prove("C15 a Sign2 message decodes iff it is a broadcast of one canonical scalar", (err == nil) == ok)
		if err == nil {
			prove("C16 a decoded Sign2 message has its content", m.Sign2 != nil && bytes.Equal(m.Sign2.Zi.Bytes(), body))
		}
	case messages.MessageTypeKeyGen2:
		ok := from != 0 && to != 0 && len(body) == 32
		if ok {
			ok = goodScalar(body)
		}
		prove("C15 a KeyGen2 message decodes iff it has an addressee and one canonical scalar", (err == nil) == ok)
		if err == nil {
			prove("C16 a decoded KeyGen2 message has its content", m.KeyGen2 != nil && bytes.Equal(m.KeyGen2.Share.Bytes(), body))
		}
	case messages.MessageTypeKeyGen1:
		ok := from != 0 && to == 0 && len(body) >= 66
		if ok {
			ok = goodScalar(body[:32]) && goodScalar(body[32:64])
		}
		if ok {
			n := int(body[64])<<8 + int(body[65]) + 1
			ok = len(body) == 66+32*n
			if ok {
				for i := 0; i < n; i++ {
					if !goodPoint(body[66+32*i : 98+32*i]) {
						ok = false
						break
					}
				}
			}
		}
		prove("C15 a KeyGen1 message decodes iff it is a broadcast of a proof and a non-empty list of canonical elements", (err == nil) == ok)
		if err == nil {
			prove("C16 a decoded KeyGen1 message has its content", m.KeyGen1 != nil && m.KeyGen1.Proof != nil && m.KeyGen1.Commitments != nil)
		}
	default:
		prove("C15 an unknown message type is refused", err != nil)
	}
	if err == nil {
		prove("C16 a decoded header has its content", m.Type == typ && m.From == from && m.To == to)
		again, err := m.MarshalBinary()
		prove("C16 a decoded message encodes to what it was decoded from", err == nil && bytes.Equal(again, data))
	}
}

// EncodeMessages: what is encoded decodes to itself.
func EncodeMessages(from, to party.ID) {
	noPanic("C16 EncodeMessages: nothing crashes")
	check := func(m *messages.Message) {
		data, err := m.MarshalBinary()
		prove("C16 a message encodes iff its header is valid", (err == nil) == (from != 0 && (m.Type != messages.MessageTypeKeyGen2 || to != 0)))
		if err != nil {
			return
		}
		prove("C16 Size is the length of the encoding", m.Size() == len(data))
		more, err := m.BytesAppend([]byte("existing"))
		prove("C16 BytesAppend appends the encoding", err == nil && bytes.Equal(more, append([]byte("existing"), data...)))
		var n messages.Message
		prove("C16 an encoded message decodes", n.UnmarshalBinary(data) == nil)
		prove("C16 an encoded message decodes to itself", n.Header == m.Header && n.Equal(m) && m.Equal(&n))
	}
	check(messages.NewSign1(from, anyPoint("D", from), anyPoint("E", from)))
	check(messages.NewSign2(from, anyScalar("z", from)))
	check(messages.NewKeyGen2(from, to, anyScalar("s", from)))
	check(messages.NewKeyGen1(from, anyProof("P", from), anyExponent("C", from)))
}

// DecodeParts: the parts of messages that have encodings of their own, decoded
// into whatever they were before.
func DecodeParts(data []byte, h *messages.Header, k1 *messages.KeyGen1, k2 *messages.KeyGen2, s1 *messages.Sign1, s2 *messages.Sign2) {
	noPanic("C15,C16 decoding a part of a message never crashes")
	if h == nil || k1 == nil || k2 == nil || s1 == nil || s2 == nil {
		return
	}
	err := h.UnmarshalBinary(data)
	ok := len(data) >= 5
	if ok {
		addressed := data[3] != 0 || data[4] != 0
		typ := messages.MessageType(data[0])
		known := typ == messages.MessageTypeKeyGen1 || typ == messages.MessageTypeKeyGen2 || typ == messages.MessageTypeSign1 || typ == messages.MessageTypeSign2
		ok = known && (data[1] != 0 || data[2] != 0) && addressed == (typ == messages.MessageTypeKeyGen2)
	}
	prove("C15 a header decodes iff it has a known type, a sender, and an addressee exactly if it needs one", (err == nil) == ok)
	if err == nil {
		again, err := h.MarshalBinary()
		prove("C16 a decoded header encodes to what it was decoded from", err == nil && bytes.Equal(again, data[:5]))
	}
	err = k2.UnmarshalBinary(data)
	one := len(data) == 32
	if one {
		one = goodScalar(data)
	}
	prove("C15 a KeyGen2 payload decodes iff it is one canonical scalar", (err == nil) == one)
	prove("C16 a decoded KeyGen2 payload has its content", err != nil || bytes.Equal(k2.Share.Bytes(), data))
	err = s2.UnmarshalBinary(data)
	prove("C15 a Sign2 payload decodes iff it is one canonical scalar", (err == nil) == one)
	prove("C16 a decoded Sign2 payload has its content", err != nil || bytes.Equal(s2.Zi.Bytes(), data))
	err = s1.UnmarshalBinary(data)
	two := len(data) == 64
	if two {
		two = goodPoint(data[:32]) && goodPoint(data[32:])
	}
	prove("C15 a Sign1 payload decodes iff it is two canonical elements", (err == nil) == two)
	if err == nil {
		prove("C16 a decoded Sign1 payload has its content", bytes.Equal(s1.Di.Bytes(), data[:32]) && bytes.Equal(s1.Ei.Bytes(), data[32:]))
	}
	if k1.UnmarshalBinary(data) == nil {
		prove("C15 a KeyGen1 payload is complete", len(data) > 66 && k1.Proof != nil && k1.Commitments != nil)
		again, err := k1.MarshalBinary()
		prove("C16 a decoded KeyGen1 payload encodes to what it was decoded from", err == nil && bytes.Equal(again, data))
	}
	_, _ = party.FromBytes(data)
}

// DecodeProof: the encoding of proofs of knowledge.
func DecodeProof(data []byte, p *zk.Schnorr) {
	noPanic("C15,C16 decoding a proof of knowledge never crashes")
	if p == nil {
		return
	}
	err := p.UnmarshalBinary(data)
	ok := len(data) == 64
	if ok {
		ok = goodScalar(data[:32]) && goodScalar(data[32:])
	}
	prove("C15 a proof of knowledge decodes iff it is two canonical scalars", (err == nil) == ok)
	if err == nil {
		again, err := p.MarshalBinary()
		prove("C16 a decoded proof of knowledge encodes to what it was decoded from", err == nil && bytes.Equal(again, data))
	}
}

// DecodeCommitments: the encoding of commitments.
func DecodeCommitments(data []byte, e *polynomial.Exponent) {
	noPanic("C15,C16 decoding commitments never crashes")
	if e == nil {
		return
	}
	err := e.UnmarshalBinary(data)
	ok := len(data) >= 2
	if ok {
		n := int(data[0])<<8 + int(data[1]) + 1
		ok = len(data) == 2+32*n
		if ok {
			for i := 0; i < n; i++ {
				if !goodPoint(data[2+32*i : 34+32*i]) {
					ok = false
					break
				}
			}
		}
	}
	prove("C15 commitments decode iff they are their degree and as many canonical elements", (err == nil) == ok)
	if err == nil {
		prove("C16 decoded commitments have their degree", int(e.Degree()) == int(data[0])<<8+int(data[1]))
		again, err := e.MarshalBinary()
		prove("C16 decoded commitments encode to what they were decoded from", err == nil && bytes.Equal(again, data))
		_ = e.Constant()
		_ = e.Evaluate(party.ID(1).Scalar())
		_ = e.Copy()
	}
}

// EncodeHeaders: which messages encode.
func EncodeHeaders(h messages.Header) {
	noPanic("C16 EncodeHeaders: nothing crashes")
	valid := h.From != 0
	switch h.Type {
	case messages.MessageTypeKeyGen2:
		valid = valid && h.To != 0
	case messages.MessageTypeKeyGen1, messages.MessageTypeSign1, messages.MessageTypeSign2:
		valid = valid && h.To == 0
	default:
		valid = false
	}
	m := &messages.Message{
		Header:  h,
		KeyGen1: &messages.KeyGen1{Proof: anyProof("P", h.From), Commitments: anyExponent("C", h.From)},
		KeyGen2: &messages.KeyGen2{Share: *anyScalar("s", h.From)},
		Sign1:   &messages.Sign1{Di: *anyPoint("D", h.From), Ei: *anyPoint("E", h.From)},
		Sign2:   &messages.Sign2{Zi: *anyScalar("z", h.From)},
	}
	_, err := m.MarshalBinary()
	prove("C16 a message with a payload encodes iff its header is valid", (err == nil) == valid)
	_, err = m.BytesAppend(nil)
	prove("C16 a message with a payload is appended iff its header is valid", (err == nil) == valid)
	hb, err := h.MarshalBinary()
	prove("C16 a header encodes iff it is valid", (err == nil) == valid)
	if err == nil {
		var g messages.Header
		prove("C16 an encoded header decodes to itself", g.UnmarshalBinary(hb) == nil && g == h && g.Equal(h) && g.Equal(&h) && len(hb) == h.Size())
	}
	switch h.Type {
	case messages.MessageTypeKeyGen1:
		m.KeyGen1 = nil
	case messages.MessageTypeKeyGen2:
		m.KeyGen2 = nil
	case messages.MessageTypeSign1:
		m.Sign1 = nil
	case messages.MessageTypeSign2:
		m.Sign2 = nil
	}
	_, err = m.MarshalBinary()
	prove("C16 a message without its payload does not encode", err != nil)
	_ = m.Size()
}

func sameCoefficients(p, q *polynomial.Exponent) bool {
	if coefficients(p) != coefficients(q) {
		return false
	}
	for i := 0; i < coefficients(p); i++ {
		if !pointEq(coefficient(p, i), coefficient(q, i)) {
			return false
		}
	}
	return true
}

// EqualMessages: which messages are equal.
func EqualMessages(h, g messages.Header) {
	noPanic("C16 EqualMessages: nothing crashes")
	same := h.Type == g.Type && h.From == g.From && h.To == g.To
	pd, pe, qd, qe := anyPoint("D", 1), anyPoint("E", 1), anyPoint("D", 2), anyPoint("E", 2)
	ps, pz, qs, qz := anyScalar("s", 1), anyScalar("z", 1), anyScalar("s", 2), anyScalar("z", 2)
	pp, qp := anyProof("P", 1), anyProof("P", 2)
	pc, qc := anyExponent("C", 1), anyExponent("C", 2)
	m := &messages.Message{
		Header:  h,
		KeyGen1: &messages.KeyGen1{Proof: pp, Commitments: pc},
		KeyGen2: &messages.KeyGen2{Share: *ps},
		Sign1:   &messages.Sign1{Di: *pd, Ei: *pe},
		Sign2:   &messages.Sign2{Zi: *pz},
	}
	n := &messages.Message{
		Header:  g,
		KeyGen1: &messages.KeyGen1{Proof: qp, Commitments: qc},
		KeyGen2: &messages.KeyGen2{Share: *qs},
		Sign1:   &messages.Sign1{Di: *qd, Ei: *qe},
		Sign2:   &messages.Sign2{Zi: *qz},
	}
	switch h.Type {
	case messages.MessageTypeKeyGen1:
		same = same && scalarEq(&pp.S, &qp.S) && scalarEq(&pp.R, &qp.R) && sameCoefficients(pc, qc)
	case messages.MessageTypeKeyGen2:
		same = same && scalarEq(ps, qs)
	case messages.MessageTypeSign1:
		same = same && pointEq(pd, qd) && pointEq(pe, qe)
	case messages.MessageTypeSign2:
		same = same && scalarEq(pz, qz)
	default:
		return
	}
	prove("C16 messages are equal iff their headers and payloads are", m.Equal(n) == same)
	switch h.Type {
	case messages.MessageTypeKeyGen1:
		m.KeyGen1 = nil
	case messages.MessageTypeKeyGen2:
		m.KeyGen2 = nil
	case messages.MessageTypeSign1:
		m.Sign1 = nil
	case messages.MessageTypeSign2:
		m.Sign2 = nil
	}
	prove("C16 a message without its payload does not equal one that has it", !m.Equal(n) && !n.Equal(m))
}

// DecodeAgain: decoding into a message that has been used before.
func DecodeAgain(m *messages.Message, data []byte) {
	noPanic("C15,C16 DecodeAgain: nothing crashes")
	var fresh messages.Message
	err := fresh.UnmarshalBinary(data)
	if m == nil {
		return
	}
	prove("C15 a message decodes whatever it is decoded into", (m.UnmarshalBinary(data) == nil) == (err == nil))
	if err == nil {
		prove("C16 what a message decodes to does not depend on what it is decoded into", m.Equal(&fresh))
	}
}

// partEncodes: the encoding of a part of a message has its size, is what
// BytesAppend appends, and decodes to an equal part.
func partEncodes(v, w messages.FROSTMarshaler) bool {
	a, err := v.MarshalBinary()
	if err != nil || len(a) != v.Size() {
		return false
	}
	b, err := v.BytesAppend([]byte{7, 9})
	if err != nil || len(b) != len(a)+2 || b[0] != 7 || b[1] != 9 || !bytes.Equal(b[2:], a) {
		return false
	}
	return w.UnmarshalBinary(a) == nil && v.Equal(w) && w.Equal(v)
}

// EncodeParts: the parts of messages on their own.
func EncodeParts() {
	noPanic("C16 EncodeParts: nothing crashes")
	c := anyExponent("C", 1)
	if coefficients(c) == 0 || coefficients(c) > 65535 {
		return
	}
	prove("C16 a KeyGen1 payload encodes", partEncodes(&messages.KeyGen1{Proof: anyProof("P", 1), Commitments: c}, new(messages.KeyGen1)))
	prove("C16 a KeyGen2 payload encodes", partEncodes(&messages.KeyGen2{Share: *anyScalar("s", 1)}, new(messages.KeyGen2)))
	prove("C16 a Sign1 payload encodes", partEncodes(&messages.Sign1{Di: *anyPoint("D", 1), Ei: *anyPoint("E", 1)}, new(messages.Sign1)))
	prove("C16 a Sign2 payload encodes", partEncodes(&messages.Sign2{Zi: *anyScalar("z", 1)}, new(messages.Sign2)))
	prove("C16 a proof of knowledge encodes", partEncodes(anyProof("P", 1), new(zk.Schnorr)))
	prove("C16 commitments encode", partEncodes(c, new(polynomial.Exponent)))
}

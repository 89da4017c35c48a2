package zzverif

import (
	"strconv"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/ristretto"
)

// Identifiers: the encodings of party identifiers.
func Identifiers(id, id2 party.ID, data, text []byte) {
	noPanic("C24,C03,C05,C16,C15,C02,C04,C06,C07 encoding and decoding identifiers never crashes")
	b := id.Bytes()
	prove("C24,C03,C05,C16 an identifier is encoded in two bytes", len(b) == 2 && party.IDByteSize == 2)
	if len(b) != 2 {
		return
	}
	prove("C24,C03,C05,C16 an identifier is encoded in big-endian order", b[0] == byte(id>>8) && b[1] == byte(id))
	back, err := party.FromBytes(b)
	prove("C24 an encoded identifier decodes to itself", err == nil && back == id)
	got, err := party.FromBytes(data)
	prove("C24,C15 an identifier is decoded iff there are two bytes", (err == nil) == (len(data) >= 2))
	if err == nil {
		prove("C24,C15,C16 an identifier is decoded from two bytes in big-endian order", got == party.ID(data[0])<<8|party.ID(data[1]))
	}
	t, err := id.MarshalText()
	want := strconv.FormatUint(uint64(id), 10)
	prove("C24 the text of an identifier is its decimal form", err == nil && string(t) == want && id.String() == want)
	var u party.ID
	prove("C24 the text of an identifier decodes to itself", u.UnmarshalText(t) == nil && u == id)
	v := id2
	n, err1 := strconv.ParseUint(string(text), 10, 64)
	err = v.UnmarshalText(text)
	prove("C24 a text is decoded iff it is the decimal form of an identifier", (err == nil) == (err1 == nil && n <= 65535))
	prove("C24 a text is decoded to its number, and kept otherwise", err == nil && uint64(v) == n || err != nil && v == id2)
	s, err := ristretto.NewScalar().SetCanonicalBytes([]byte{byte(id), byte(id >> 8), 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0})
	prove("C24,C02,C04,C06,C07 the scalar of an identifier is its number", err == nil && scalarEq(id.Scalar(), s))
	prove("C24 a random identifier is valid", party.RandID() != 0)
	prove("C24 different identifiers have different scalars", scalarEq(id.Scalar(), id2.Scalar()) == (id == id2))
}

// IdentifierLists: lists of identifiers.
func IdentifierLists(a, b party.IDSlice, x party.ID, i, j int) {
	noPanic("C24,C06,C17,C18,C09 operations on lists of identifiers never crash")
	same := len(a) == len(b)
	if same {
		for k := range a {
			if a[k] != b[k] {
				same = false
			}
		}
	}
	prove("C24,C06,C17 lists are equal iff all their elements are", a.Equal(b) == same)
	c := a.Copy()
	prove("C24,C18 a copy of a list is equal to it", len(c) == len(a) && c.Equal(a))
	prove("C24 the size of a list is its length", len(a) > 65535 || int(a.N()) == len(a))
	for k := 1; k < len(a); k++ {
		if a[k-1] >= a[k] {
			return
		}
	}
	for k := 1; k < len(b); k++ {
		if b[k-1] >= b[k] {
			return
		}
	}
	prove("C24,C09,C17,C18 a sorted list contains exactly its elements", a.Contains(x) == member(x, a))
	sub := true
	for _, y := range b {
		if !member(y, a) {
			sub = false
		}
	}
	prove("C24,C18 a list is a subset iff all its elements are elements", b.IsSubsetOf(a) == sub)
}

// SortedLists: lists made by sorting.
func SortedLists(n party.Size, x party.ID) {
	noPanic("C24 making lists of identifiers never crashes")
	oneTo(helpers.NewPartySlice(n), n, x)
	oneTo(helpers.GenerateSet(n), n, x)
}

func oneTo(s party.IDSlice, n party.Size, x party.ID) {
	prove("C24 n identifiers are made", len(s) == int(n))
	prove("C24 the identifiers are 1 to n", s.Contains(x) == (x >= 1 && x <= n))
	for i := range s {
		prove("C24 the identifiers are in ascending order", s[i] == party.ID(i+1))
	}
}

// SortedSet: lists made by sorting.
func SortedSet(ids party.IDSlice, x party.ID) {
	noPanic("C24,C17 sorting a list of identifiers never crashes")
	s := party.NewIDSlice(ids)
	prove("C24,C17 a sorted list has as many identifiers", len(s) == len(ids))
	prove("C24,C17 a sorted list has the same identifiers", s.Contains(x) == member(x, ids) && member(x, s) == member(x, ids))
}

package zzverif

import (
	"bytes"
	"crypto/ed25519"
	"errors"
	"os"
	"strconv"
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/eddsa"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/keygen"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/frost/sign"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

// runCommand runs the command of a directory.
func runCommand(dir string) {}

// unknown is true or false, anew for each call.
func unknown() bool { return false }

// stop ends the path.
func stop() {}

// successPrinted tells whether the command has printed a text with the word
// Success, wasPrinted whether it has printed these bytes.
func successPrinted() bool      { return false }
func wasPrinted(b []byte) bool  { return false }
func wasNamed(name string) bool { return false }

func anySession(name string, id party.ID) *state.State        { return nil }
func anyKeygenOutput(name string, id party.ID) *keygen.Output { return nil }
func anySignOutput(name string, id party.ID) *sign.Output     { return nil }
func anySignature(name string, id party.ID) *eddsa.Signature  { return nil }
func anyKeyShare(name string, id party.ID) *eddsa.SecretShare { return nil }
func anyPublic(name string, id party.ID) *eddsa.Public        { return nil }
func anyBytes(name string, id party.ID) []byte                { return nil }
func sessionOwner(s *state.State) party.ID                    { return 0 }

// entryOf is the key of the entry of a map of key shares.
func entryOf(s *eddsa.SecretShare) party.ID { return 0 }

func secretsIn(v interface{}) map[party.ID]*eddsa.SecretShare                      { return nil }
func publicIn(v interface{}) *eddsa.Public                                         { return nil }
func decodeInto(v interface{}, m map[party.ID]*eddsa.SecretShare, p *eddsa.Public) {}

// routineOf is what the party routine does with a session of three rounds.
func routineOf(calls map[party.ID]int, fails func(id party.ID) bool, ends func(id party.ID)) func(in [][]byte, s *state.State) ([][]byte, error) {
	return func(in [][]byte, s *state.State) ([][]byte, error) {
		if s == nil {
			panic("no session")
		}
		id := sessionOwner(s)
		calls[id]++
		if calls[id] == 3 && !fails(id) {
			ends(id)
		}
		if fails(id) {
			return nil, errors.New("failed")
		}
		return nil, nil
	}
}

// KeygenCommand: what the key generation command reports.
func KeygenCommand() {
	if len(os.Args) == 0 {
		return
	}
	noPanic("C22 the key generation command never crashes")
	sessions := map[party.ID]bool{}
	wrong, twice := false, false
	calls := map[party.ID]int{}
	public := anyPublic("public", 0)
	written, complete := false, false
	var name string
	var mode os.FileMode
	var data []byte
	text := anyBytes("json", 0)
	threshold, n := 0, 0
	if len(os.Args) == 3 {
		threshold, _ = strconv.Atoi(os.Args[1])
		n, _ = strconv.Atoi(os.Args[2])
	}
	if n <= 65535 {
		for i := 1; i <= n; i++ {
			if public.Shares[party.ID(i)] == nil {
				return // not what key generation gives
			}
		}
	}
	replace("pkg/frost.NewKeygenState", func(id party.ID, ids party.IDSlice, t party.Size, d time.Duration) (*state.State, *keygen.Output, error) {
		if sessions[id] {
			twice = true
		}
		if int(t) != threshold || len(ids) != n {
			wrong = true
		}
		sessions[id] = true
		if unknown() {
			return nil, nil, errors.New("refused")
		}
		return anySession("session", id), anyKeygenOutput("out", id), nil
	})
	fails := func(id party.ID) bool { return anyBool("fails", id) }
	replace("pkg/helpers.PartyRoutine", routineOf(calls, fails, func(id party.ID) {
		anyKeygenOutput("out", id).Public = public
		anyKeygenOutput("out", id).SecretKey = anyKeyShare("key", id)
	}))
	replace("(*pkg/state.State).WaitForError", func(s *state.State) error {
		if s == nil {
			panic("no session")
		}
		if anyBool("fails", sessionOwner(s)) {
			return errors.New("failed")
		}
		if calls[sessionOwner(s)] != 3 {
			stop() // waits for ever
		}
		return nil
	})
	marshal := func(v interface{}) ([]byte, error) {
		complete = publicIn(v) == public
		for i := 1; i <= n; i++ {
			if secretsIn(v)[party.ID(i)] != anyKeyShare("key", party.ID(i)) {
				complete = false
				break
			}
		}
		if unknown() {
			return nil, errors.New("not encodable")
		}
		return text, nil
	}
	replace("encoding/json.MarshalIndent", func(v interface{}, prefix, indent string) ([]byte, error) { return marshal(v) })
	replace("encoding/json.Marshal", marshal)
	write := func(file string, b []byte, m os.FileMode) error {
		if unknown() {
			return errors.New("not written")
		}
		written, name, data, mode = true, file, b, m
		return nil
	}
	replace("os.WriteFile", write)
	replace("io/ioutil.WriteFile", write)
	runCommand("cmd/keygen")
	if !successPrinted() {
		return
	}
	reach("C22 a key generation command that succeeds")
	_, e1 := strconv.Atoi(os.Args[1])
	_, e2 := strconv.Atoi(os.Args[2])
	prove("C22 keys are generated only for numbers", len(os.Args) == 3 && e1 == nil && e2 == nil)
	prove("C22 keys are generated only for a threshold of at least one and less than the number of parties", 1 <= threshold && threshold < n && n <= 100)
	prove("C22 all sessions have the parties and the threshold asked for", !wrong && !twice)
	prove("C22 success is reported only after the keys are written", written)
	prove("C22 the keys are written to the file that is named, for its owner only", mode == 0600 && wasNamed(name))
	prove("C22 the keys written are those of all parties and of the group", complete && bytes.Equal(data, text))
	for i := 1; i <= n; i++ {
		prove("C22 success is reported only if every session has ended without an error", calls[party.ID(i)] == 3 && !fails(party.ID(i)))
	}
}

// SignCommand: what the signing command reports.
func SignCommand() {
	if len(os.Args) == 0 {
		return
	}
	noPanic("C22 the signing command never crashes")
	calls := map[party.ID]int{}
	public := anyPublic("public", 0)
	if len(public.PartyIDs) == 0 || len(public.PartyIDs) > 65535 || public.GroupKey == nil {
		return // not what is decoded
	}
	read, decoded, wrong := false, false, false
	var name string
	var secrets map[party.ID]*eddsa.SecretShare
	file := anyBytes("file", 0)
	readFile := func(f string) ([]byte, error) {
		if unknown() {
			return nil, errors.New("not read")
		}
		read, name = true, f
		return file, nil
	}
	replace("os.ReadFile", readFile)
	replace("io/ioutil.ReadFile", readFile)
	replace("encoding/json.Unmarshal", func(b []byte, v interface{}) error {
		p := public
		if anyBool("no public", 0) {
			p = nil
		}
		secrets = anySecrets("secrets", 0)
		decodeInto(v, secrets, p)
		if unknown() {
			return errors.New("not JSON") // a part may be decoded
		}
		decoded = bytes.Equal(b, file)
		return nil
	})
	replace("pkg/frost.NewSignState", func(ids party.IDSlice, secret *eddsa.SecretShare, p *eddsa.Public, message []byte, d time.Duration) (*state.State, *sign.Output, error) {
		if p != public || secret == nil || !bytes.Equal(message, []byte(os.Args[2])) {
			wrong = true
		}
		if unknown() {
			return nil, nil, errors.New("refused")
		}
		return anySession("session", entryOf(secret)), anySignOutput("out", entryOf(secret)), nil
	})
	fails := func(id party.ID) bool { return anyBool("fails", id) }
	replace("pkg/helpers.PartyRoutine", routineOf(calls, fails, func(id party.ID) {
		anySignOutput("out", id).Signature = anySignature("sig", id)
	}))
	replace("(*pkg/state.State).WaitForError", func(s *state.State) error {
		if s == nil {
			panic("no session")
		}
		if anyBool("fails", sessionOwner(s)) {
			return errors.New("failed")
		}
		if calls[sessionOwner(s)] != 3 {
			stop() // waits for ever
		}
		return nil
	})
	runCommand("cmd/signer")
	if !successPrinted() {
		return
	}
	reach("C22 a signing command that succeeds")
	prove("C22 keys are read from the file given", len(os.Args) == 3 && read && name == os.Args[1] && decoded)
	prove("C22 sessions sign the message given with the keys of the file", !wrong && !anyBool("no public", 0))
	ids := helpers.GenerateSet(public.PartyIDs.N())
	if len(ids) == 0 {
		return
	}
	sig := anySignature("sig", ids[0])
	prove("C22 the signature printed is the one made", wasPrinted(sig.R.Bytes()) && wasPrinted(sig.S.Bytes()))
	prove("C22 success is reported only for a signature that verifies", public.GroupKey.Verify([]byte(os.Args[2]), sig) || ed25519.Verify(public.GroupKey.ToEd25519(), []byte(os.Args[2]), sig.ToEd25519()))
}

func anySecrets(name string, id party.ID) map[party.ID]*eddsa.SecretShare { return nil }

package zzverif

import (
	"errors"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/helpers"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

// replace makes calls of the named function run f instead.
func replace(name string, f interface{}) {}

// Routine: the routine that relays encoded messages to a session. The session
// and the encoding of messages are stand-ins that answer arbitrarily.
func Routine(in [][]byte, s *state.State, produced []*messages.Message) {
	noPanic("C26 Routine: nothing crashes")
	if s == nil {
		return
	}
	for _, m := range produced {
		if m == nil {
			return
		}
	}
	decodes := func(b []byte) bool { return len(b) == 3 && b[0] == 1 }
	replace("(*pkg/messages.Message).UnmarshalBinary", func(m *messages.Message, b []byte) error {
		if !decodes(b) {
			return errors.New("not a message")
		}
		m.From = party.ID(b[1])<<8 + party.ID(b[2])
		return nil
	})
	replace("(*pkg/messages.Message).MarshalBinary", func(m *messages.Message) ([]byte, error) {
		if anyBool("unencodable", m.From) {
			return nil, errors.New("not encodable")
		}
		return []byte{1, byte(m.From >> 8), byte(m.From)}, nil
	})
	var taken []*messages.Message
	replace("(*pkg/state.State).HandleMessage", func(x *state.State, m *messages.Message) error {
		taken = append(taken, m)
		if anyBool("refused", m.From) {
			return errors.New("refused")
		}
		return nil
	})
	processed, before := 0, 0
	replace("(*pkg/state.State).ProcessAll", func(x *state.State) []*messages.Message {
		processed++
		before = len(taken)
		return produced
	})
	finished, failed := anyBool("finished", 0), anyBool("failed", 0)
	replace("(*pkg/state.State).IsFinished", func(x *state.State) bool { return finished })
	result := func(x *state.State) error {
		if finished && failed {
			return errors.New("failed")
		}
		return nil
	}
	replace("(*pkg/state.State).WaitForError", result)
	replace("(*pkg/state.State).Err", result)
	out, err := helpers.PartyRoutine(in, s)
	good := true
	for _, b := range in {
		if !decodes(b) {
			good = false
			break
		}
		if anyBool("refused", party.ID(b[1])<<8+party.ID(b[2])) {
			good = false
			break
		}
	}
	for _, m := range produced {
		if anyBool("unencodable", m.From) {
			good = false
			break
		}
	}
	prove("C26 the routine fails exactly if a message does not decode, is refused or does not encode, or the session has failed", (err == nil) == (good && !(finished && failed)))
	prove("C26 a routine that fails gives no messages", err == nil || len(out) == 0)
	if err != nil {
		return
	}
	reach("C26 a routine that succeeds")
	prove("C26 every message is handed to the session before it runs", len(taken) == len(in) && before == len(in))
	prove("C26 the session runs once", processed == 1)
	for i, b := range in {
		prove("C26 messages are handed over in order, unchanged", taken[i].From == party.ID(b[1])<<8+party.ID(b[2]))
	}
	prove("C26 every message the session makes is given", len(out) == len(produced))
	for i, m := range produced {
		prove("C26 messages are given encoded, in order", len(out[i]) == 3 && out[i][0] == 1 && out[i][1] == byte(m.From>>8) && out[i][2] == byte(m.From))
	}
}

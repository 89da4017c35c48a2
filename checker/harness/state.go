package zzverif

import (
	"errors"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

func anyBool(name string, id party.ID) bool { return false }

// scriptLog records what a session does with its rounds.
type scriptLog struct {
	processed1 map[party.ID]*messages.Message
	processed2 map[party.ID]*messages.Message
	calls1     map[party.ID]int
	calls2     map[party.ID]int
	generated  [3]int
	resets     int
	late       bool // a call on a round that is over
}

// script is a protocol of three rounds whose rounds answer arbitrarily.
type script struct {
	self   party.ID
	ids    party.IDSlice
	t1, t2 messages.MessageType
	round  int
	log    *scriptLog
}

func (r *script) SelfID() party.ID        { return r.self }
func (r *script) PartyIDs() party.IDSlice { return r.ids }
func (r *script) Reset()                  { r.log.resets++ }
func (r *script) AcceptedMessageTypes() []messages.MessageType {
	return []messages.MessageType{messages.MessageTypeNone, r.t1, r.t2}
}

func (r *script) ProcessMessage(m *messages.Message) *state.Error {
	if r.log.generated[r.round] > 0 {
		r.log.late = true
	}
	if r.round == 0 {
		return nil
	}
	if r.round == 1 {
		r.log.calls1[m.From]++
		r.log.processed1[m.From] = m
		if anyBool("reject1", m.From) {
			return state.NewError(m.From, errors.New("rejected"))
		}
		return nil
	}
	r.log.calls2[m.From]++
	r.log.processed2[m.From] = m
	if anyBool("reject2", m.From) {
		return state.NewError(m.From, errors.New("rejected"))
	}
	return nil
}

func (r *script) GenerateMessages() ([]*messages.Message, *state.Error) {
	r.log.generated[r.round]++
	if anyBool("fail", party.ID(r.round)) {
		return nil, state.NewError(0, errors.New("failed"))
	}
	return []*messages.Message{{Header: messages.Header{Type: r.t1, From: r.self}}}, nil
}

func (r *script) NextRound() state.Round {
	if r.round == 2 {
		return nil
	}
	return &script{self: r.self, ids: r.ids, t1: r.t1, t2: r.t2, round: r.round + 1, log: r.log}
}

// newSession is a session over the script; nil if the arguments are unusable.
func newSession(self party.ID, ids party.IDSlice, t1, t2 messages.MessageType) (*state.State, *scriptLog) {
	if len(ids) > 65535 {
		return nil, nil // not a list of distinct identifiers
	}
	if t1 == t2 || t1 == messages.MessageTypeNone || t2 == messages.MessageTypeNone {
		return nil, nil
	}
	if _, err := state.NewBaseRound(self, ids); err != nil {
		return nil, nil
	}
	log := &scriptLog{processed1: map[party.ID]*messages.Message{}, processed2: map[party.ID]*messages.Message{}, calls1: map[party.ID]int{}, calls2: map[party.ID]int{}}
	s, err := state.NewBaseState(&script{self: self, ids: ids, t1: t1, t2: t2, log: log}, 0)
	prove("C09 a session can be created", err == nil)
	if err != nil {
		return nil, nil
	}
	return s, log
}

// StateGating: which messages a session takes.
func StateGating(self party.ID, ids party.IDSlice, t1, t2 messages.MessageType, m, m2 *messages.Message) {
	noPanic("C09,C11 StateGating: nothing crashes")
	s, log := newSession(self, ids, t1, t2)
	if s == nil || m == nil || m2 == nil || anyBool("fail", 0) {
		return
	}
	s.ProcessAll()
	forMe := func(m *messages.Message) bool { return m.From != self && (m.To == 0 || m.To == self) }
	ok := func(m *messages.Message) bool {
		return ids.Contains(m.From) && (m.Type == t1 || m.Type == t2)
	}
	e := s.HandleMessage(m)
	taken := forMe(m) && ok(m)
	prove("C09 messages of self and for others are ignored", forMe(m) || e == nil)
	prove("C09 a message is taken iff it comes from a participant and has an expected type", !forMe(m) || (e == nil) == ok(m))
	e2 := s.HandleMessage(m2)
	again := taken && m2.From == m.From && m2.Type == m.Type
	prove("C09 later messages of self and for others are ignored", forMe(m2) || e2 == nil)
	e3 := s.HandleMessage(&messages.Message{Header: messages.Header{Type: m2.Type, From: m2.From}})
	prove("C09 a message that was ignored or refused is not taken", forMe(m2) && e2 == nil || m2.From == self || again || (e3 == nil) == (ok(m2) && !(taken && m2.From == m.From && m2.Type == m.Type)))
	prove("C09 a second message of the same sender and type is refused, another one is taken",
		!forMe(m2) || (e2 == nil) == (ok(m2) && !again))
	prove("C09 taking a message runs no round", len(log.calls1) == 0 && len(log.calls2) == 0 && log.generated[1] == 0)
	prove("C09,C11 refusing a message does not end the session", !s.IsFinished() && s.Err() == nil)
}

// StateAdvance: a round runs when all its messages are there.
func StateAdvance(self party.ID, ids party.IDSlice, t1, t2 messages.MessageType, missing party.ID) {
	noPanic("C10,C11 StateAdvance: nothing crashes")
	s, log := newSession(self, ids, t1, t2)
	if s == nil || anyBool("fail", 0) {
		return
	}
	out := s.ProcessAll()
	prove("C10 the first round runs without messages", log.generated[0] == 1 && len(out) == 1)
	all := true
	for _, id := range ids {
		if id == self {
			continue
		}
		if id == missing {
			all = false
			continue
		}
		e := s.HandleMessage(&messages.Message{Header: messages.Header{Type: t1, From: id}})
		prove("C10 the message of a participant is taken", e == nil)
	}
	out = s.ProcessAll()
	if !all {
		prove("C10 a round waits for all messages", len(out) == 0 && log.generated[1] == 0 && len(log.calls1) == 0 && !s.IsFinished())
		return
	}
	reach("C10 a round with all messages")
	prove("C10 no message is processed after its round", !log.late)
	if s.Err() != nil {
		prove("C11 an error ends the session", s.IsFinished())
		return
	}
	prove("C10 the round runs once", log.generated[1] == 1 && len(out) == 1)
	for _, id := range ids {
		if id != self {
			prove("C10 every participant's message is processed", log.processed1[id] != nil && log.processed1[id].From == id)
			prove("C10 every message is processed once", log.calls1[id] == 1)
		}
	}
}

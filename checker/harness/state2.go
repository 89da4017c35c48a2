package zzverif

import (
	"time"

	"github.com/taurusgroup/frost-ed25519/pkg/frost/party"
	"github.com/taurusgroup/frost-ed25519/pkg/messages"
	"github.com/taurusgroup/frost-ed25519/pkg/state"
)

func locksHeld() int                { return 0 }
func timers() int                   { return 0 }
func timerArmed() bool              { return false }
func timerDuration() time.Duration  { return 0 }
func timerRestarted() bool          { return false }
func watchTimer()                   {}
func closed(c <-chan struct{}) bool { return false }
func fireTimer()                    {}

// newTimedSession is newSession with a timeout.
func newTimedSession(self party.ID, ids party.IDSlice, t1, t2 messages.MessageType, d time.Duration) (*state.State, *scriptLog) {
	if len(ids) > 65535 {
		return nil, nil // not a list of distinct identifiers
	}
	if t1 == t2 || t1 == messages.MessageTypeNone || t2 == messages.MessageTypeNone {
		return nil, nil
	}
	if _, err := state.NewBaseRound(self, ids); err != nil {
		return nil, nil
	}
	log := &scriptLog{processed1: map[party.ID]*messages.Message{}, processed2: map[party.ID]*messages.Message{}, calls1: map[party.ID]int{}, calls2: map[party.ID]int{}}
	s, err := state.NewBaseState(&script{self: self, ids: ids, t1: t1, t2: t2, log: log}, d)
	if err != nil {
		return nil, nil
	}
	return s, log
}

// StateEarly: messages for a later round wait for it.
func StateEarly(self party.ID, ids party.IDSlice, t1, t2 messages.MessageType, x, y party.ID) {
	noPanic("C09,C10,C11,C14 StateEarly: nothing crashes")
	if len(ids) == 1 {
		return
	}
	s, log := newSession(self, ids, t1, t2)
	if s == nil || anyBool("fail", 0) || x == y || x == self || y == self || !ids.Contains(x) || !ids.Contains(y) {
		return
	}
	s.ProcessAll()
	ex := s.HandleMessage(&messages.Message{Header: messages.Header{Type: t2, From: x, To: self}})
	ey := s.HandleMessage(&messages.Message{Header: messages.Header{Type: t2, From: y, To: self}})
	prove("C09 a message for a later round is taken", ex == nil && ey == nil)
	out := s.ProcessAll()
	prove("C10 a round does not run on the messages of a later one", len(out) == 0 && log.generated[1] == 0 && len(log.calls1) == 0 && len(log.calls2) == 0)
	for _, id := range ids {
		if id == self {
			continue
		}
		e := s.HandleMessage(&messages.Message{Header: messages.Header{Type: t1, From: id}})
		prove("C09 the message of the current round is taken after one for a later round", e == nil)
	}
	out = s.ProcessAll()
	prove("C10 a round does not process the messages of another", len(log.calls2) == 0 && log.generated[2] == 0)
	if s.Err() != nil {
		return
	}
	prove("C10 a session goes on after its first rounds", !s.IsFinished() && !closed(s.Done()) && len(out) == 1)
	for _, id := range ids {
		if id == self {
			continue
		}
		e := s.HandleMessage(&messages.Message{Header: messages.Header{Type: t2, From: id}})
		prove("C09 a message is taken after an early one exactly if it is the first", (e == nil) == (id != x && id != y))
	}
	e := s.HandleMessage(&messages.Message{Header: messages.Header{Type: t1, From: x}})
	prove("C09 a message for a round that is over is refused", e != nil)
	out = s.ProcessAll()
	prove("C10 no message is processed after its round", !log.late)
	prove("C11 a session that has run all its rounds or failed is finished", s.IsFinished() && closed(s.Done()))
	prove("C14 a session that is over has reset its round", log.resets == 1)
	if s.Err() != nil {
		return
	}
	reach("C11 a session that finishes")
	prove("C10 the last round runs on early messages", log.generated[2] == 1 && len(out) == 1)
	for _, id := range ids {
		if id != self {
			prove("C10 every message of the last round is processed", log.processed2[id] != nil && log.processed2[id].From == id && log.processed2[id].Type == t2)
			prove("C10 every message of the last round is processed once", log.calls2[id] == 1)
			prove("C10 the early messages are the ones processed", (log.processed2[id].To == self) == (id == x || id == y))
		}
	}
}

// StateOver: nothing happens after the end of a session.
func StateOver(self party.ID, ids party.IDSlice, t1, t2 messages.MessageType, m *messages.Message) {
	noPanic("C11,C14 StateOver: nothing crashes")
	s, log := newSession(self, ids, t1, t2)
	if s == nil || m == nil {
		return
	}
	prove("C11 a new session is not finished", !s.IsFinished() && s.Err() == nil && !closed(s.Done()))
	s.ProcessAll()
	prove("C11 a session ends by an error exactly if its round fails", (s.Err() != nil) == anyBool("fail", 0))
	prove("C11 done, finished and error agree", s.IsFinished() == (s.Err() != nil) && closed(s.Done()) == s.IsFinished())
	if !s.IsFinished() {
		prove("C14 a session that goes on does not reset its round", log.resets == 0)
		return
	}
	e := s.Err()
	prove("C11 a session that is over takes no messages", s.HandleMessage(m) != nil)
	out := s.ProcessAll()
	prove("C11 a session that is over does nothing", len(out) == 0 && log.generated[0] == 1 && log.generated[1] == 0)
	prove("C11 the outcome of a session does not change", s.IsFinished() && s.Err() == e && closed(s.Done()))
	prove("C11 waiting for a session that is over gives its error", s.WaitForError() == e)
	prove("C14 a session that is over has reset its round", log.resets == 1)
}

// StateTimer: when the timeout of a session runs.
func StateTimer(self party.ID, ids party.IDSlice, t1, t2 messages.MessageType, d time.Duration, m, m2 *messages.Message) {
	noPanic("C12,C13,C14,C25 StateTimer: nothing crashes")
	s, log := newTimedSession(self, ids, t1, t2, d)
	if s == nil || m == nil || m2 == nil {
		return
	}
	if d <= 0 {
		prove("C12 without a timeout there is no timer", timers() == 0)
		e := s.HandleMessage(m)
		prove("C12 without a timeout messages start no timer", timers() == 0 && !timerArmed())
		_ = e
		return
	}
	prove("C12 a session with a timeout has one timer that runs for it", timers() == 1 && timerArmed() && timerDuration() == d)
	prove("C13 creating a session leaves it unlocked", locksHeld() == 0)
	watchTimer()
	e := s.HandleMessage(m)
	taken := e == nil && m.From != self && (m.To == 0 || m.To == self)
	prove("C12 a message restarts the timer iff it is taken", timerRestarted() == taken)
	watchTimer()
	e = s.HandleMessage(m2)
	taken = e == nil && m2.From != self && (m2.To == 0 || m2.To == self)
	prove("C12 a later message restarts the timer iff it is taken", timerRestarted() == taken)
	prove("C12 the timer goes on for the same time", timers() == 1 && timerArmed() && timerDuration() == d)
	fireTimer()
	prove("C13 an expired timer leaves the session unlocked", locksHeld() == 0)
	prove("C12 a session whose timer expires is over", s.IsFinished() && closed(s.Done()) && s.Err() != nil)
	prove("C14 a session whose timer expires has reset its round", log.resets == 1)
	se, ok := s.Err().(*state.Error)
	prove("C12,C25 a timeout blames nobody and names the round", ok && se.PartyID == 0 && se.RoundNumber == 0)
	prove("C12 a session whose timer expired takes no messages", s.HandleMessage(m) != nil)
	out := s.ProcessAll()
	prove("C12 a session whose timer expired does nothing", len(out) == 0 && log.generated[0] == 0)
}

// StateTimerOver: the timer of a session that is over has no effect.
func StateTimerOver(self party.ID, ids party.IDSlice, t1, t2 messages.MessageType, d time.Duration) {
	noPanic("C12,C25 StateTimerOver: nothing crashes")
	if len(ids) == 1 {
		return
	}
	s, log := newTimedSession(self, ids, t1, t2, d)
	if s == nil || d <= 0 {
		return
	}
	watchTimer()
	s.ProcessAll()
	if !s.IsFinished() {
		prove("C12 running a round neither stops nor restarts the timer", timerArmed() && timerDuration() == d && !timerRestarted())
		s.ProcessAll()
		prove("C12 a round that waits for messages does not restart the timer", timerArmed() && timerDuration() == d && !timerRestarted())
		fireTimer()
		se, ok := s.Err().(*state.Error)
		prove("C12,C25 a timeout in a later round names that round", ok && se.PartyID == 0 && se.RoundNumber == 1)
		return
	}
	prove("C12 a session that is over has stopped its timer", !timerArmed())
	e := s.Err()
	fireTimer()
	prove("C12 a timer that expires too late changes nothing", s.IsFinished() && s.Err() == e && log.resets == 1)
	se, ok := s.Err().(*state.Error)
	prove("C25 the error of a round names it", ok && se.PartyID == 0 && se.RoundNumber == 0)
}

// StateLocks: no operation leaves the session locked.
func StateLocks(self party.ID, ids party.IDSlice, t1, t2 messages.MessageType, m *messages.Message) {
	s, _ := newSession(self, ids, t1, t2)
	if s == nil || m == nil {
		return
	}
	noPanic("C13 no operation waits for a lock it holds or releases one it does not hold")
	s.HandleMessage(m)
	prove("C13 handling a message leaves the session unlocked", locksHeld() == 0)
	s.ProcessAll()
	prove("C13 running a round leaves the session unlocked", locksHeld() == 0)
	s.HandleMessage(m)
	prove("C13 handling a message in the next round leaves the session unlocked", locksHeld() == 0)
	s.Err()
	prove("C13 asking for the error leaves the session unlocked", locksHeld() == 0)
	s.IsFinished()
	prove("C13 asking for the end leaves the session unlocked", locksHeld() == 0)
	s.Done()
	prove("C13 asking for the channel leaves the session unlocked", locksHeld() == 0)
}

// StateLocksOver: nor does any operation after its end.
func StateLocksOver(self party.ID, ids party.IDSlice, t1, t2 messages.MessageType, m *messages.Message) {
	s, _ := newSession(self, ids, t1, t2)
	if s == nil || m == nil || !anyBool("fail", 0) {
		return
	}
	noPanic("C13 no operation on a session that is over waits for a lock it holds or releases one it does not hold")
	s.ProcessAll()
	prove("C13 the round that ends a session leaves it unlocked", locksHeld() == 0)
	s.ProcessAll()
	prove("C13 running a session that is over leaves it unlocked", locksHeld() == 0)
	s.HandleMessage(m)
	prove("C13 a message for a session that is over leaves it unlocked", locksHeld() == 0)
	s.Err()
	prove("C13 asking for the error of a session that is over leaves it unlocked", locksHeld() == 0)
	s.IsFinished()
	prove("C13 asking for the end of a session that is over leaves it unlocked", locksHeld() == 0)
	s.WaitForError()
	prove("C13 waiting for a session that is over leaves it unlocked", locksHeld() == 0)
}

// meanwhile is what happens while the session is next waited for.
func meanwhile(f func()) {}

// StateWait: waiting for a session that is not over yet.
func StateWait(self party.ID, ids party.IDSlice, t1, t2 messages.MessageType, d time.Duration) {
	s, _ := newTimedSession(self, ids, t1, t2, d)
	if s == nil || d <= 0 {
		return
	}
	noPanic("C13,C11 waiting for a session holds no lock that its end needs")
	meanwhile(func() { fireTimer() })
	err := s.WaitForError()
	reach("C11 waiting for a session that times out")
	prove("C11 waiting gives the error the session ends with meanwhile", err != nil && err == s.Err() && s.IsFinished())
	prove("C13 waiting leaves the session unlocked", locksHeld() == 0)
}

// StateWaitRound: waiting for a session that another operation ends.
func StateWaitRound(self party.ID, ids party.IDSlice, t1, t2 messages.MessageType) {
	s, _ := newSession(self, ids, t1, t2)
	if s == nil || !anyBool("fail", 0) {
		return
	}
	noPanic("C13,C11 waiting for a session holds no lock that its rounds need")
	meanwhile(func() { s.ProcessAll() })
	err := s.WaitForError()
	reach("C11 waiting for a session that fails")
	prove("C11 waiting gives the error of the round that fails meanwhile", err != nil && err == s.Err() && s.IsFinished())
	prove("C13 waiting leaves the session unlocked", locksHeld() == 0)
}

// StateBlame: the errors of a session name their round and culprit.
func StateBlame(self party.ID, ids party.IDSlice, t1, t2 messages.MessageType, x party.ID) {
	noPanic("C11,C25 StateBlame: nothing crashes")
	s, log := newSession(self, ids, t1, t2)
	if s == nil || anyBool("fail", 0) {
		return
	}
	s.HandleMessage(&messages.Message{Header: messages.Header{Type: t2, From: x, To: self}})
	s.ProcessAll()
	for _, id := range ids {
		if id == self {
			continue
		}
		s.HandleMessage(&messages.Message{Header: messages.Header{Type: t1, From: id}})
	}
	out := s.ProcessAll()
	if s.Err() == nil {
		prove("C11,C25 a session without an error goes on", !s.IsFinished() && !closed(s.Done()))
		return
	}
	prove("C11 a session that fails is over and generates nothing", s.IsFinished() && closed(s.Done()) && len(out) == 0)
	prove("C14 a session that fails has reset its round once", log.resets == 1)
	se, ok := s.Err().(*state.Error)
	prove("C25 the error of a session is a state error", ok)
	if !ok {
		return
	}
	prove("C25 an error names the round it occurred in", se.RoundNumber == 1)
	if se.PartyID != 0 {
		prove("C25 a culprit's message was refused", log.calls1[se.PartyID] == 1 && anyBool("reject1", se.PartyID))
		prove("C11,C25 no round runs on a refused message", log.generated[1] == 0)
	} else {
		prove("C25 an error without a culprit comes from the round", log.generated[1] == 1 && anyBool("fail", 1))
	}
}

// StateAhead: messages that come before the session has started.
func StateAhead(self party.ID, ids party.IDSlice, t1, t2 messages.MessageType, x, y party.ID) {
	noPanic("C09,C10,C11 StateAhead: nothing crashes")
	if len(ids) == 1 {
		return
	}
	s, log := newSession(self, ids, t1, t2)
	if s == nil || anyBool("fail", 0) || x == y || x == self || y == self || !ids.Contains(x) || !ids.Contains(y) {
		return
	}
	// the first messages are told from the second ones by their address
	e1 := s.HandleMessage(&messages.Message{Header: messages.Header{Type: t2, From: x, To: self}})
	e2 := s.HandleMessage(&messages.Message{Header: messages.Header{Type: t1, From: y, To: self}})
	e3 := s.HandleMessage(&messages.Message{Header: messages.Header{Type: t1, From: x, To: self}})
	e4 := s.HandleMessage(&messages.Message{Header: messages.Header{Type: t2, From: y, To: self}})
	prove("C09 messages that come before the session starts are taken", e1 == nil && e2 == nil && e3 == nil && e4 == nil)
	e1 = s.HandleMessage(&messages.Message{Header: messages.Header{Type: t2, From: x}})
	e2 = s.HandleMessage(&messages.Message{Header: messages.Header{Type: t1, From: y}})
	e3 = s.HandleMessage(&messages.Message{Header: messages.Header{Type: t1, From: x}})
	e4 = s.HandleMessage(&messages.Message{Header: messages.Header{Type: t2, From: y}})
	prove("C09 messages that come before the session starts are taken once", e1 != nil && e2 != nil && e3 != nil && e4 != nil)
	s.ProcessAll()
	prove("C10 the first round runs without messages of later ones", log.generated[0] == 1 && log.generated[1] == 0 && len(log.calls1) == 0 && len(log.calls2) == 0)
	for _, id := range ids {
		if id == self {
			continue
		}
		e := s.HandleMessage(&messages.Message{Header: messages.Header{Type: t1, From: id}})
		prove("C09 a message is taken after the start exactly if it did not come before", (e == nil) == (id != x && id != y))
	}
	s.ProcessAll()
	if s.Err() != nil {
		return
	}
	for _, id := range ids {
		if id != self {
			prove("C10 messages that came before the start are processed once in their round", log.calls1[id] == 1 && log.processed1[id].From == id && log.processed1[id].Type == t1)
			prove("C10 the messages that came before the start are the ones processed", (log.processed1[id].To == self) == (id == x || id == y))
		}
	}
	prove("C10 a message waits until its round", log.generated[1] == 1 && len(log.calls2) == 0)
	for _, id := range ids {
		if id == self {
			continue
		}
		e := s.HandleMessage(&messages.Message{Header: messages.Header{Type: t2, From: id}})
		prove("C09 a message is taken exactly if it did not come two rounds before", (e == nil) == (id != x && id != y))
	}
	s.ProcessAll()
	prove("C11 a session that has run all its rounds is finished", s.IsFinished())
	if s.Err() != nil {
		return
	}
	reach("C10 a session with messages from before its start")
	for _, id := range ids {
		if id != self {
			prove("C10 messages that came two rounds before are processed once in their round", log.calls2[id] == 1 && log.processed2[id].From == id && log.processed2[id].Type == t2)
			prove("C10 the messages that came two rounds before are the ones processed", (log.processed2[id].To == self) == (id == x || id == y))
		}
	}
}

// StateFinish: a session that has finished successfully stays so.
func StateFinish(self party.ID, ids party.IDSlice, t1, t2 messages.MessageType, d time.Duration, m *messages.Message) {
	noPanic("C11,C12,C13 StateFinish: nothing crashes")
	s, log := newTimedSession(self, ids, t1, t2, d)
	if s == nil || m == nil {
		return
	}
	s.ProcessAll()
	for _, id := range ids {
		if id != self {
			s.HandleMessage(&messages.Message{Header: messages.Header{Type: t1, From: id}})
		}
	}
	s.ProcessAll()
	for _, id := range ids {
		if id != self {
			s.HandleMessage(&messages.Message{Header: messages.Header{Type: t2, From: id}})
		}
	}
	s.ProcessAll()
	prove("C11 a session that has all its messages ends", s.IsFinished() && closed(s.Done()) && log.resets == 1)
	prove("C12 a session that has ended has stopped its timer", !timerArmed())
	e := s.Err()
	if d > 0 {
		fireTimer()
		prove("C11,C12 a timer that expires after the end changes nothing", s.IsFinished() && s.Err() == e && log.resets == 1 && closed(s.Done()))
		prove("C13 a timer that expires after the end leaves the session unlocked", locksHeld() == 0)
	}
	if e != nil {
		return
	}
	reach("C11 a session that succeeds")
	prove("C11 a session ends without an error exactly if it has run its rounds", log.generated[0] == 1 && log.generated[1] == 1 && log.generated[2] == 1)
	prove("C11 a session that has succeeded takes no messages", s.HandleMessage(m) != nil)
	out := s.ProcessAll()
	prove("C11 a session that has succeeded does nothing", len(out) == 0 && log.generated[2] == 1 && !log.late)
	prove("C11 the success of a session does not change", s.IsFinished() && s.Err() == nil && s.WaitForError() == nil && closed(s.Done()) && log.resets == 1)
}

From 25b468e18c4da442b6eebe020ad7fb057a8bbc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 01/20] fix: derive the Schnorr challenge from the 64 byte
 digest

h.Sum appends to the 64 byte buffer, so SetUniformBytes was given 128 bytes,
failed, and the challenge was always 0: any proof with S = 0 verified.
---
 pkg/internal/zk/schnorr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/internal/zk/schnorr.go b/pkg/internal/zk/schnorr.go
index 24470d0..2ecdbff 100644
--- a/pkg/internal/zk/schnorr.go
+++ b/pkg/internal/zk/schnorr.go
@@ -83,7 +83,7 @@ func challenge(partyID party.ID, context []byte, public, M *ristretto.Element) *
 	_, _ = h.Write(public.Bytes())
 	_, _ = h.Write(M.Bytes())
 
-	buffer := make([]byte, 64)
+	buffer := make([]byte, 0, 64)
 	// SetUniformBytes only returns an error when the length is wrong so we're okay here
 	_, _ = S.SetUniformBytes(h.Sum(buffer))
 	return &S
-- 
2.43.0


From edeeb191a1aa13ce3aadb221d0e42252b6206d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 02/20] fix: report payload errors from Message.UnmarshalBinary

A message whose payload failed to decode was returned without error and
without payload, and made the receiving round dereference nil.
---
 pkg/messages/messages.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/messages/messages.go b/pkg/messages/messages.go
index d5b6967..3012b4c 100644
--- a/pkg/messages/messages.go
+++ b/pkg/messages/messages.go
@@ -119,7 +119,7 @@ func (m *Message) UnmarshalBinary(data []byte) error {
 		return errors.New("messages.UnmarshalBinary: invalid message type")
 	}
 
-	return nil
+	return err
 }
 
 func (m *Message) Equal(other interface{}) bool {
-- 
2.43.0


From 0f2e6c012117dead4d596fad99ebece9e8ecb570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 03/20] fix: abort keygen on commitments of the wrong degree

The error was dropped, so such a party's share was added to the secret but
its commitments were left out of the public key.
---
 pkg/frost/keygen/round1.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/frost/keygen/round1.go b/pkg/frost/keygen/round1.go
index 512f21d..a24298d 100644
--- a/pkg/frost/keygen/round1.go
+++ b/pkg/frost/keygen/round1.go
@@ -20,7 +20,9 @@ func (round *round1) ProcessMessage(msg *messages.Message) *state.Error {
 	round.Commitments[from] = msg.KeyGen1.Commitments
 
 	// Add the commitments to our own, so that we can interpolate the final polynomial
-	_ = round.CommitmentsSum.Add(msg.KeyGen1.Commitments)
+	if err := round.CommitmentsSum.Add(msg.KeyGen1.Commitments); err != nil {
+		return state.NewError(from, err)
+	}
 	return nil
 }
 
-- 
2.43.0


From 633277ea946247bb6651a6f0926d112866ce69d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 04/20] fix: do not share commitments between keygen messages
 and round state

The outgoing KeyGen1 message pointed at CommitmentsSum, which the next round
modifies, and Reset cleared the commitments inside received messages.
---
 pkg/frost/keygen/round0.go | 2 +-
 pkg/frost/keygen/round1.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/frost/keygen/round0.go b/pkg/frost/keygen/round0.go
index 6dc4f13..f96aac7 100644
--- a/pkg/frost/keygen/round0.go
+++ b/pkg/frost/keygen/round0.go
@@ -35,7 +35,7 @@ func (round *round0) GenerateMessages() ([]*messages.Message, *state.Error) {
 	// Bonus, we overwrite the original secret which is no longer needed.
 	round.Secret.Set(round.Polynomial.Evaluate(round.SelfID().Scalar()))
 
-	msg := messages.NewKeyGen1(round.SelfID(), proof, round.CommitmentsSum)
+	msg := messages.NewKeyGen1(round.SelfID(), proof, round.CommitmentsSum.Copy())
 	return []*messages.Message{msg}, nil
 }
 
diff --git a/pkg/frost/keygen/round1.go b/pkg/frost/keygen/round1.go
index a24298d..8d29aa9 100644
--- a/pkg/frost/keygen/round1.go
+++ b/pkg/frost/keygen/round1.go
@@ -17,7 +17,7 @@ func (round *round1) ProcessMessage(msg *messages.Message) *state.Error {
 		return state.NewError(from, errors.New("ZK Schnorr failed"))
 	}
 
-	round.Commitments[from] = msg.KeyGen1.Commitments
+	round.Commitments[from] = msg.KeyGen1.Commitments.Copy()
 
 	// Add the commitments to our own, so that we can interpolate the final polynomial
 	if err := round.CommitmentsSum.Add(msg.KeyGen1.Commitments); err != nil {
-- 
2.43.0


From b62cd0064229420913b809bce87e5268f1539670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 05/20] fix: reject an encoded Exponent without coefficients

degree+1 wrapped to 0 for degree 0xffff, and Constant then panicked.
---
 pkg/internal/polynomial/exponent.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/internal/polynomial/exponent.go b/pkg/internal/polynomial/exponent.go
index 1689224..3948640 100644
--- a/pkg/internal/polynomial/exponent.go
+++ b/pkg/internal/polynomial/exponent.go
@@ -187,14 +187,14 @@ func (p *Exponent) UnmarshalBinary(data []byte) error {
 	if err != nil {
 		return err
 	}
-	coefficientCount := degree + 1
+	coefficientCount := int(degree) + 1
 	remaining := data[party.IDByteSize:]
 
 	count := len(remaining)
 	if count%32 != 0 {
 		return errors.New("length of data is wrong")
 	}
-	if count != int(coefficientCount)*32 {
+	if count != coefficientCount*32 {
 		return errors.New("wrong number of coefficients embedded")
 	}
 
-- 
2.43.0


From a567f81714d0c48b0420a8dd167cbc6e9d6a9351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 06/20] fix: do not panic when keygen times out before the
 first round ran

---
 pkg/frost/keygen/base.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/frost/keygen/base.go b/pkg/frost/keygen/base.go
index 5564bc1..be8f752 100644
--- a/pkg/frost/keygen/base.go
+++ b/pkg/frost/keygen/base.go
@@ -69,8 +69,13 @@ func NewRound(selfID party.ID, partyIDs party.IDSlice, threshold party.Size) (st
 
 func (round *round0) Reset() {
 	round.Secret.Set(ristretto.NewScalar())
-	round.Polynomial.Reset()
-	round.CommitmentsSum.Reset()
+	// both are nil if we abort before the first messages were generated
+	if round.Polynomial != nil {
+		round.Polynomial.Reset()
+	}
+	if round.CommitmentsSum != nil {
+		round.CommitmentsSum.Reset()
+	}
 	for _, p := range round.Commitments {
 		p.Reset()
 	}
-- 
2.43.0


From 090c21e01d9d4e29ed56b4d86c230bd03ab65eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 07/20] fix: keep messages for later rounds, and at most one
 per party and round

A message for a later round was refused while the sender's message for the
current round was pending (or before the first ProcessAll), so the protocol
could not finish; and queued messages were not checked for duplicates.
---
 pkg/state/state.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 924fbc8..5da20ee 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -105,16 +105,15 @@ func (s *State) HandleMessage(msg *messages.Message) error {
 		return s.wrapError(errors.New("sender is not a party"), senderID)
 	}
 
-	// Check if we have already received a message from this party.
-	// exists should never be false, but you never know
-	if _, exists := s.receivedMessages[senderID]; exists {
-		return s.wrapError(errors.New("message from this party was already received"), senderID)
-	}
-
 	if !s.isAcceptedType(msg.Type) {
 		return s.wrapError(errors.New("message type is not accepted for this type of round"), senderID)
 	}
 
+	// Check if we have already received a message of this type from this party.
+	if s.isDuplicate(senderID, msg.Type) {
+		return s.wrapError(errors.New("message from this party was already received"), senderID)
+	}
+
 	s.ackMessage()
 
 	if msg.Type == s.acceptedTypes[0] {
@@ -199,6 +198,21 @@ func (s *State) isAcceptedType(msgType messages.MessageType) bool {
 	return false
 }
 
+// isDuplicate returns true if a message of type msgType from senderID is already stored,
+// either for the current round or in the queue for a later one.
+func (s *State) isDuplicate(senderID party.ID, msgType messages.MessageType) bool {
+	if msgType == s.acceptedTypes[0] {
+		_, exists := s.receivedMessages[senderID]
+		return exists
+	}
+	for _, msg := range s.queue {
+		if msg.From == senderID && msg.Type == msgType {
+			return true
+		}
+	}
+	return false
+}
+
 //
 // Output
 //
-- 
2.43.0


From 6e43fe4b412d66b9ef454fe6a77539db841799dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 08/20] fix: read the state's result under its mutex

Err, IsFinished and WaitForError raced with ProcessAll and the timeout, and
the timeout with the constructor.
---
 pkg/state/state.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 5da20ee..2755e79 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -42,6 +42,10 @@ func NewBaseState(round Round, timeout time.Duration) (*State, error) {
 		doneChan:         make(chan struct{}),
 	}
 
+	// the timer may fire before we return
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	s.timer = newTimer(timeout, func() {
 		s.mtx.Lock()
 		s.reportError(NewError(0, errors.New("message timeout")))
@@ -251,6 +255,9 @@ func (s *State) Done() <-chan struct{} {
 }
 
 func (s *State) Err() error {
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	if s.err != nil {
 		return s.err
 	}
@@ -261,14 +268,15 @@ func (s *State) Err() error {
 // This happens either when the protocol has finished correctly,
 // or if an error has been detected.
 func (s *State) WaitForError() error {
-	if !s.done {
-		<-s.doneChan
-	}
+	<-s.doneChan
 	return s.Err()
 }
 
 // IsFinished returns true if the protocol has aborted or successfully finished.
 func (s *State) IsFinished() bool {
+	s.mtx.Lock()
+	defer s.mtx.Unlock()
+
 	return s.done
 }
 
-- 
2.43.0


From c23e941dfb171524f7ae0bc9798b92c5badd3189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 09/20] fix: do not swap round and culprit in HandleMessage
 errors

---
 pkg/state/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/state/state.go b/pkg/state/state.go
index 2755e79..b7bb956 100644
--- a/pkg/state/state.go
+++ b/pkg/state/state.go
@@ -65,7 +65,7 @@ func (s *State) wrapError(err error, culprit party.ID) error {
 	if culprit == 0 {
 		return fmt.Errorf("party %d, round %d: %w", s.round.SelfID(), s.roundNumber, err)
 	}
-	return fmt.Errorf("party %d, round %d, culprit %d: %w", s.round.SelfID(), culprit, s.roundNumber, err)
+	return fmt.Errorf("party %d, round %d, culprit %d: %w", s.round.SelfID(), s.roundNumber, culprit, err)
 }
 
 // HandleMessage should be called on an unmarshalled messages.Message appropriate for the protocol execution.
-- 
2.43.0


From 0f0402f78cc8a8221f673f8c3fdd09117fc650b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 10/20] fix: reject public key material with missing parts
 instead of panicking

---
 pkg/eddsa/public.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/eddsa/public.go b/pkg/eddsa/public.go
index 3bebb78..5bbb4df 100644
--- a/pkg/eddsa/public.go
+++ b/pkg/eddsa/public.go
@@ -29,7 +29,10 @@ type Public struct {
 func NewPublic(shares map[party.ID]*ristretto.Element, threshold party.Size) (*Public, error) {
 	n := len(shares)
 	IDs := make([]party.ID, 0, n)
-	for id := range shares {
+	for id, share := range shares {
+		if id == 0 || share == nil {
+			return nil, errors.New("PublicShares: party ID 0 or missing share")
+		}
 		IDs = append(IDs, id)
 	}
 
@@ -90,7 +93,7 @@ func (s *Public) UnmarshalJSON(data []byte) error {
 		return err
 	}
 	computedGroupKey := computeGroupKey(newS.PartyIDs, out.Shares)
-	if !computedGroupKey.Equal(out.GroupKey) {
+	if out.GroupKey == nil || !computedGroupKey.Equal(out.GroupKey) {
 		return errors.New("PublicShares: inconsistent group key")
 	}
 
-- 
2.43.0


From bd482f69383280e42e9d9bac00d0f8a1ea2acec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 11/20] fix: do not truncate or wrap the threshold of public
 key material

---
 pkg/eddsa/public.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/eddsa/public.go b/pkg/eddsa/public.go
index 5bbb4df..6e123be 100644
--- a/pkg/eddsa/public.go
+++ b/pkg/eddsa/public.go
@@ -45,7 +45,7 @@ func NewPublic(shares map[party.ID]*ristretto.Element, threshold party.Size) (*P
 		GroupKey:  computeGroupKey(set, shares),
 	}
 
-	if s.Threshold+1 > s.PartyIDs.N() {
+	if int(s.Threshold)+1 > len(s.PartyIDs) {
 		return nil, errors.New("PublicShares: Threshold should be < N - 1")
 	}
 
@@ -66,7 +66,7 @@ func computeGroupKey(partyIDs party.IDSlice, shares map[party.ID]*ristretto.Elem
 }
 
 type sharesJSON struct {
-	Threshold int                             `json:"t"`
+	Threshold uint16                          `json:"t"`
 	GroupKey  *PublicKey                      `json:"groupkey"`
 	Shares    map[party.ID]*ristretto.Element `json:"shares"`
 }
@@ -74,7 +74,7 @@ type sharesJSON struct {
 // MarshalJSON implements the json.Marshaler interface.
 func (s *Public) MarshalJSON() ([]byte, error) {
 	return json.Marshal(sharesJSON{
-		Threshold: int(s.Threshold),
+		Threshold: uint16(s.Threshold),
 		Shares:    s.Shares,
 		GroupKey:  s.GroupKey,
 	})
-- 
2.43.0


From 780f43fee283f3a7c602fa468546490051508aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 12/20] fix: do not truncate the ID of a SecretShare decoded
 from JSON

---
 pkg/eddsa/secret_share.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/eddsa/secret_share.go b/pkg/eddsa/secret_share.go
index 1f7217f..f899cd0 100644
--- a/pkg/eddsa/secret_share.go
+++ b/pkg/eddsa/secret_share.go
@@ -57,14 +57,14 @@ func (sk *SecretShare) UnmarshalBinary(data []byte) error {
 }
 
 type jsonSecretShare struct {
-	ID          int    `json:"id"`
+	ID          uint16 `json:"id"`
 	SecretShare []byte `json:"secret"`
 }
 
 // MarshalJSON implements the json.Marshaler interface.
 func (sk *SecretShare) MarshalJSON() ([]byte, error) {
 	return json.Marshal(jsonSecretShare{
-		ID:          int(sk.ID),
+		ID:          uint16(sk.ID),
 		SecretShare: sk.Secret.Bytes(),
 	})
 }
-- 
2.43.0


From eefb455b985de7094c4fceb69aee1591000191c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 13/20] fix: refuse party sets with ID 0, duplicates or in the
 wrong order

With ID 0 keygen panicked while generating shares, and with a duplicate the
protocol waited forever for a message that nobody sends.
---
 pkg/state/base_round.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/state/base_round.go b/pkg/state/base_round.go
index bcdd754..579a46a 100644
--- a/pkg/state/base_round.go
+++ b/pkg/state/base_round.go
@@ -13,6 +13,14 @@ type BaseRound struct {
 }
 
 func NewBaseRound(selfID party.ID, partyIDs party.IDSlice) (*BaseRound, error) {
+	for i, id := range partyIDs {
+		if id == 0 {
+			return nil, errors.New("PartyIDs should not contain 0")
+		}
+		if i > 0 && partyIDs[i-1] >= id {
+			return nil, errors.New("PartyIDs should be sorted and without duplicates")
+		}
+	}
 	if !partyIDs.Contains(selfID) {
 		return nil, errors.New("PartyIDs should contain selfID")
 	}
-- 
2.43.0


From 5847afaeec8cf149e87e4ca25e44cf083c060ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 14/20] fix: refuse to sign with fewer than threshold+1 parties

---
 pkg/frost/sign/base.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/frost/sign/base.go b/pkg/frost/sign/base.go
index 97f6e52..771e05c 100644
--- a/pkg/frost/sign/base.go
+++ b/pkg/frost/sign/base.go
@@ -51,6 +51,10 @@ func NewRound(partyIDs party.IDSlice, secret *eddsa.SecretShare, shares *eddsa.P
 		return nil, nil, errors.New("base.NewRound: not all parties of partyIDs are contained in shares")
 	}
 
+	if partyIDs.N() <= shares.Threshold {
+		return nil, nil, errors.New("base.NewRound: at least threshold+1 signers are required")
+	}
+
 	baseRound, err := state.NewBaseRound(secret.ID, partyIDs)
 	if err != nil {
 		return nil, nil, fmt.Errorf("base.NewRound: %w", err)
-- 
2.43.0


From 3eab5d62ee75c31487447c8bc03d579cd0b3f8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 15/20] fix: do not use a partly filled buffer as randomness

rand.Reader.Read may return fewer bytes than asked for without an error;
rand.Read does not.
---
 pkg/internal/scalar/scalar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/internal/scalar/scalar.go b/pkg/internal/scalar/scalar.go
index 7cab383..d942e65 100644
--- a/pkg/internal/scalar/scalar.go
+++ b/pkg/internal/scalar/scalar.go
@@ -11,7 +11,7 @@ import (
 func SetScalarRandom(s *ristretto.Scalar) *ristretto.Scalar {
 	bytes := make([]byte, 64)
 
-	_, err := rand.Reader.Read(bytes)
+	_, err := rand.Read(bytes)
 	if err != nil {
 		panic(fmt.Errorf("edwards25519: failed to generate random Scalar: %w", err))
 	}
-- 
2.43.0


From b67f415b9a227bc53ca384cd51e99137a7941d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 16/20] fix: keygen command reports a failure to write the key
 file

It claimed success although no key material had been saved.
---
 cmd/keygen/keygen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/keygen/keygen.go b/cmd/keygen/keygen.go
index 0ab011e..8e14141 100644
--- a/cmd/keygen/keygen.go
+++ b/cmd/keygen/keygen.go
@@ -137,7 +137,11 @@ func main() {
 
 	filename := "keygenout.json"
 
-	_ = ioutil.WriteFile(filename, jsonData, 0644)
+	err = ioutil.WriteFile(filename, jsonData, 0644)
+	if err != nil {
+		fmt.Println(err)
+		return
+	}
 
 	fmt.Printf("Success: output written to %v\n", filename)
 }
-- 
2.43.0


From be050fb9833dd2b5f80c914fbf663318cfbd1be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 17/20] fix: keygen command does not make the secret shares
 world readable

---
 cmd/keygen/keygen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/keygen/keygen.go b/cmd/keygen/keygen.go
index 8e14141..5175ba2 100644
--- a/cmd/keygen/keygen.go
+++ b/cmd/keygen/keygen.go
@@ -137,7 +137,7 @@ func main() {
 
 	filename := "keygenout.json"
 
-	err = ioutil.WriteFile(filename, jsonData, 0644)
+	err = ioutil.WriteFile(filename, jsonData, 0600)
 	if err != nil {
 		fmt.Println(err)
 		return
-- 
2.43.0


From a80fcae8384485d5b3801d343f05148e3474039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 18/20] fix: keygen command refuses t < 1

Negative arguments wrapped around to a different threshold and party count.
---
 cmd/keygen/keygen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/keygen/keygen.go b/cmd/keygen/keygen.go
index 5175ba2..3e3b9b3 100644
--- a/cmd/keygen/keygen.go
+++ b/cmd/keygen/keygen.go
@@ -45,7 +45,7 @@ func main() {
 		usage()
 		return
 	}
-	if (n > maxN) || (t >= n) {
+	if (n > maxN) || (t < 1) || (t >= n) {
 		usage()
 		return
 	}
-- 
2.43.0


From 0c43894bb0f37bbaa6a6f11de36d1e4b4f78afba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 19/20] fix: signer command reports unusable key files instead
 of crashing

---
 cmd/signer/signer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/signer/signer.go b/cmd/signer/signer.go
index 2bf688c..3a4b561 100644
--- a/cmd/signer/signer.go
+++ b/cmd/signer/signer.go
@@ -53,6 +53,11 @@ func main() {
 		return
 	}
 
+	if kgOutput.Shares == nil {
+		fmt.Println("no public shares in", filename)
+		return
+	}
+
 	// get n and t from the keygen output
 	var n party.Size
 	var t party.Size
@@ -74,9 +79,14 @@ func main() {
 	msgsOut2 := make([][]byte, 0, n)
 
 	for _, id := range partyIDs {
+		if secretShares[id] == nil {
+			fmt.Printf("no secret share for party %d\n", id)
+			return
+		}
 		states[id], outputs[id], err = frost.NewSignState(partyIDs, secretShares[id], publicShares, message, 0)
 		if err != nil {
-			fmt.Println()
+			fmt.Println(err)
+			return
 		}
 	}
 
-- 
2.43.0


From 09971ec25844b5e628f2e10264d2b5a8214fcb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 20/20] fix: NewPartySlice terminates for the largest party
 count

---
 pkg/helpers/parties.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/helpers/parties.go b/pkg/helpers/parties.go
index 9685737..c9e9e09 100644
--- a/pkg/helpers/parties.go
+++ b/pkg/helpers/parties.go
@@ -11,8 +11,8 @@ import (
 // NewPartySlice returns n party.ID s in the range [1, ..., n].
 func NewPartySlice(n party.Size) party.IDSlice {
 	partyIDs := make([]party.ID, 0, n)
-	for i := party.ID(1); i <= n; i++ {
-		partyIDs = append(partyIDs, i)
+	for i := 1; i <= int(n); i++ {
+		partyIDs = append(partyIDs, party.ID(i))
 	}
 	return partyIDs
 }
-- 
2.43.0


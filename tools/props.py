# The table of properties: what is claimed, and what is not.
AI = "abstract interpretation of go/ssa (symbolic value numbering, algebraic normal forms, joins) against contracts"
TRUST = ("Decided statically for all symbolic inputs of the contract. Trusted: the analyser (checker/), its models of the Go "
         "standard library, of SHA-512 (as an uninterpreted function) and of the edwards25519 group and scalar field "
         "(as ideal algebra); the contract text.")

PROPS = [
 dict(id="C01", title="Signing only outputs signatures that verify",
  statement="Whenever a party's signing session ends without an error, it outputs a signature that is valid for exactly the message and the group key the session was started with: its nonce is the sum of all signers' bound nonce commitments and its response the sum of all their responses. Whenever the session ends with an error, and before its last round is complete, no signature is output.",
  over=["inputs","configurations","fault_sequences"], text="every participant list, threshold, key material accepted by the session, message, and every message content sent by the other signers",
  why="Tests run a few honest sessions; they cannot enumerate the messages of a malicious signer, nor every message and signer set.",
  files=["pkg/frost/sign/round0.go","pkg/frost/sign/round1.go","pkg/frost/sign/round2.go","pkg/frost/sign/base.go","pkg/eddsa/public_key.go"],
  mech=[("final verification before the output is set","pkg/frost/sign/round2.go"),("summation of the shares","pkg/frost/sign/round2.go")],
  technique=AI, note=TRUST),
 dict(id="C02", title="Invalid signature shares are rejected and blamed on their sender",
  statement="During signing, another signer's response is accepted if and only if it satisfies the share equation for that signer: response times generator equals its bound nonce commitment plus challenge times Lagrange coefficient times its public share. A response that fails aborts the session with an error that names its sender.",
  over=["inputs","fault_sequences"], text="every response scalar, signer, signer set, message and commitment",
  why="Tests feed honest responses only; no test sends every wrong response, and a weaker check would pass them all.",
  files=["pkg/frost/sign/round2.go","pkg/frost/sign/round1.go","pkg/frost/sign/base.go"],
  mech=[("share verification","pkg/frost/sign/round2.go"),("Lagrange normalised public shares","pkg/frost/sign/base.go")],
  technique=AI, note=TRUST),
 dict(id="C03", title="Binding factors commit to signer, message and all nonce commitments",
  statement="Each signer's binding factor is the hash of a domain separator, that signer's identifier, the hash of the message, and the list of every signer's identifier and both its nonce commitments in ascending identifier order, whatever the order of arrival. A nonce commitment that is the identity element aborts the session with an error that names its sender.",
  over=["inputs","schedules"], text="every signer set, message, list of commitments and arrival order",
  why="All parties of a test compute the same, possibly wrong, binding factors, so honest runs succeed even when an input is left out of the hash.",
  files=["pkg/frost/sign/round1.go","pkg/frost/sign/round0.go"],
  mech=[("binding factor computation","pkg/frost/sign/round1.go"),("identity check","pkg/frost/sign/round1.go")],
  technique=AI, note=TRUST),
 dict(id="C04", title="Key generation shares are checked against the sender's commitments",
  statement="During distributed key generation a received secret share is accepted if and only if share times generator equals the sender's committed polynomial evaluated at the receiver's identifier. A share that fails aborts the session with an error that names its sender.",
  over=["inputs","fault_sequences"], text="every share scalar, sender, receiver, participant list, threshold and commitment polynomial of the right degree",
  why="Tests run honest dealers only; they cannot try every inconsistent share.",
  files=["pkg/frost/keygen/round2.go","pkg/internal/polynomial/exponent.go"],
  mech=[("share verification","pkg/frost/keygen/round2.go"),("evaluation in the exponent","pkg/internal/polynomial/exponent.go")],
  technique=AI, note=TRUST),
 dict(id="C05", title="Key generation commitments need a proof of knowledge and the right degree",
  statement="A received commitment polynomial is accepted if and only if its degree equals the threshold and its proof of knowledge verifies for its constant term, with a challenge that is the hash of the sender's identifier, the session context, the committed point and the nonce commitment; otherwise the session aborts with an error that names the sender. The proof a party sends verifies for its own identifier and commitment.",
  over=["inputs","fault_sequences"], text="every sender, commitment polynomial of any degree, proof, participant list and threshold",
  why="Tests send honest proofs; a challenge that forgets an input, or a check that accepts too much, passes every honest run.",
  files=["pkg/frost/keygen/round0.go","pkg/frost/keygen/round1.go","pkg/internal/zk/schnorr.go"],
  mech=[("Schnorr proof","pkg/internal/zk/schnorr.go"),("degree check","pkg/frost/keygen/round1.go")],
  technique=AI, note=TRUST),
 dict(id="C06", title="Key generation outputs consistent keys for every participant",
  statement="When key generation succeeds, the group key is the sum of the constant commitments of all participants, every participant's public share is the sum of all commitment polynomials at its identifier, and the secret share output is this party's own, matches its public share, and comes with the participant list and threshold of the session. Nothing is output before the last round, and a party that accepted all messages always succeeds.",
  over=["inputs","configurations"], text="every participant list, threshold, and all accepted commitments and shares of the other participants",
  why="Tests compare a few random runs with few parties; agreement for every participant list, threshold and accepted commitment is out of their reach.",
  files=["pkg/frost/keygen/round0.go","pkg/frost/keygen/round1.go","pkg/frost/keygen/round2.go","pkg/frost/keygen/base.go","pkg/internal/polynomial/exponent.go","pkg/eddsa/public.go"],
  mech=[("sum of commitments","pkg/frost/keygen/round1.go"),("output","pkg/frost/keygen/round2.go")],
  technique=AI, note=TRUST),
 dict(id="C07", title="Secret shares are sent only to their addressee",
  statement="In key generation a party sends exactly one secret share to each other participant, addressed to that participant only, never broadcast and never to itself, and its value is the committed polynomial at the addressee's identifier. Broadcast messages carry commitments and proofs only.",
  over=["inputs","configurations"], text="every participant list and threshold",
  why="Tests deliver messages to whom they are addressed; a share also sent to someone else, or broadcast, changes no outcome they look at.",
  files=["pkg/frost/keygen/round1.go","pkg/frost/keygen/round0.go","pkg/messages/keygen2.go"],
  mech=[("message generation","pkg/frost/keygen/round1.go")],
  technique=AI, note=TRUST),
 dict(id="C09", title="A session takes exactly the messages it is meant to take",
  statement="A session ignores messages of its own party and messages addressed to somebody else without an error. Any other message is taken if and only if the session is not over, its sender is a participant, its type belongs to the current or a later round, and no message of that type from that sender was taken before; otherwise it is refused with an error. A refused message changes nothing and does not end the session.",
  over=["inputs","histories"], text="every participant list, pair of message types, sequence of two messages in a round, and delivery of messages before their round",
  why="Tests deliver well-formed messages once; duplicates, foreign senders and messages for other rounds come in too many combinations to sample.",
  files=["pkg/state/state.go","pkg/messages/messages.go"],
  mech=[("checks of HandleMessage","pkg/state/state.go")],
  technique=AI, note=TRUST),
 dict(id="C10", title="A round runs once, on exactly one message of every other participant",
  statement="A round of a session runs exactly when the messages of its type of all other participants are there: it processes each of them once, generates its messages once, and the session moves to the next round. Messages that come before their round wait for it and are then processed once, whatever the order of arrival; no message is processed in another round, and none after its round is over.",
  over=["inputs","schedules","histories"], text="every participant list, missing participant, and two arbitrary participants whose messages arrive a round early",
  why="Tests use a few parties and lockstep delivery; early and reordered messages of arbitrary participants are not sampled.",
  files=["pkg/state/state.go","pkg/state/round.go"],
  mech=[("ProcessAll and the queue","pkg/state/state.go")],
  technique=AI, note=TRUST),
 dict(id="C11", title="A session ends once and its outcome does not change",
  statement="A session is over exactly when its last round has run or an error has occurred. From then on the done channel is closed, waiting returns the session's error, messages are refused, no round runs and no message is generated, and the outcome never changes. Before, it is not finished, has no error, and the done channel is open.",
  over=["inputs","histories"], text="every participant list, failure of a round or message, and operation after the end",
  why="Tests stop using a session once it is over; they do not try every operation on it afterwards.",
  files=["pkg/state/state.go"],
  mech=[("finish and reportError","pkg/state/state.go")],
  technique=AI, note=TRUST),
 dict(id="C12", title="Timeouts abort exactly the sessions that receive nothing",
  statement="A session with a positive timeout has one timer that runs for it from its creation and is restarted with the same duration by each message that is taken, and by nothing else. When it expires the session is over with an error that blames nobody and names the current round. A session without a timeout never has a timer; a session that is over has stopped its timer, and an expiry that comes too late changes nothing.",
  over=["inputs","schedules"], text="every timeout, participant list, message and moment of expiry relative to the operations of the session",
  why="Tests that wait for timers are slow and cannot choose when a timer fires; an expiry that races with another operation is not sampled.",
  files=["pkg/state/state.go"],
  mech=[("timer","pkg/state/state.go")],
  technique=AI+", with ghost state for timers, locks and channels", note=TRUST),
 dict(id="C13", title="Concurrent use of a session neither races nor deadlocks",
  statement="Everything in a session that its operations change is read and written only while the session's lock is held, including by its timer. No operation returns, on any path, while holding the lock, acquires it while holding it, or releases it without holding it.",
  over=["schedules"], text="every path through every operation of a session, for every state of the session",
  why="Race detectors see only the interleavings that a test happens to run.",
  files=["pkg/state/state.go"],
  mech=[("mutex","pkg/state/state.go")],
  technique="lock-state (typestate) analysis on go/ssa by abstract interpretation, with a must-hold-lock rule for every field that operations change", note=TRUST),
 dict(id="C25", title="Errors name their round and their culprit",
  statement="The error a session ends with is a state error that names the number of the round it occurred in. It names a participant exactly if a message of that participant was refused, and that participant is the one whose message was refused; otherwise it names nobody.",
  over=["inputs","fault_sequences"], text="every participant list and set of participants whose messages the round refuses, failing rounds, and timeouts",
  why="Tests check that an error occurs, not whom and what it names in every case.",
  files=["pkg/state/state.go","pkg/state/error.go"],
  mech=[("reportError","pkg/state/state.go")],
  technique=AI, note=TRUST),
 dict(id="C08", title="Secrets come from fresh, independent randomness",
  statement="Both nonces of a signing session, all coefficients of the polynomial of a key generation session (for a sharing of a given secret: all but the constant), and the nonce of every proof of knowledge are uniform scalars made of 64 bytes read from the system's randomness for that purpose alone. No two of them, in one session or in two sessions, use the same bytes, and bytes of a failed read are never used.",
  over=["inputs","histories"], text="every key, message, participant list, threshold, coefficient, and pair of sessions",
  why="Tests cannot tell uniform independent values from related or short ones; reuse shows in no single run.",
  files=["pkg/internal/scalar/scalar.go","pkg/internal/polynomial/polynomial.go","pkg/frost/sign/round0.go","pkg/frost/keygen/round0.go","pkg/internal/zk/schnorr.go"],
  mech=[("random scalars","pkg/internal/scalar/scalar.go"),("random coefficients","pkg/internal/polynomial/polynomial.go")],
  technique="dataflow of randomness: symbolic provenance of every secret value on go/ssa by abstract interpretation", note=TRUST),
 dict(id="C14", title="Ending a session erases its secrets and keeps its output",
  statement="A session that ends, at whatever point and for whatever reason, resets its round exactly once; a session that goes on does not. After the reset no nonce, polynomial coefficient, key share or received share can be reached from the round any more, while the output of the session is unchanged. During key generation the polynomial is erased once all shares are made, and a received share is erased from its message once it is accepted.",
  over=["inputs","histories"], text="every participant list, threshold, key, message of the other participants, and point at which the session ends",
  why="Erasure is invisible in results; tests do not look at memory after a session.",
  files=["pkg/frost/sign/base.go","pkg/frost/sign/party.go","pkg/frost/keygen/base.go","pkg/frost/keygen/round1.go","pkg/frost/keygen/round2.go","pkg/internal/polynomial/polynomial.go","pkg/state/state.go"],
  mech=[("Reset of the rounds","pkg/frost/sign/base.go"),("reset at the end","pkg/state/state.go")],
  technique="reachability of secret-dependent values in the abstract heap, on go/ssa by abstract interpretation", note=TRUST),
 dict(id="C15", title="No input from the network crashes a party, and only well-formed messages decode",
  statement="Decoding a message or a part of one never panics, whatever the bytes. A byte string decodes to a message if and only if it has a non-zero sender, a known type, an addressee exactly if the type is addressed, and a complete payload of canonical scalars and group elements of exactly the right length; headers, payloads, proofs and commitments on their own decode as strictly. No message that decodes crashes a key generation or signing session that receives it.",
  over=["inputs"], text="every byte string of every length, and every decoded message of every participant",
  why="Tests decode a few valid encodings; malformed inputs cannot be enumerated.",
  files=["pkg/messages/header.go","pkg/messages/messages.go","pkg/messages/keygen1.go","pkg/messages/keygen2.go","pkg/messages/sign1.go","pkg/messages/sign2.go","pkg/internal/polynomial/exponent.go","pkg/internal/zk/schnorr.go"],
  mech=[("UnmarshalBinary","pkg/messages/messages.go"),("decoding of commitments","pkg/internal/polynomial/exponent.go")],
  technique=AI, note=TRUST),
 dict(id="C16", title="Encoding and decoding of messages agree",
  statement="A message encodes exactly if its header is valid and its payload is there; the encoding has the length Size reports, BytesAppend appends the same bytes, and decoding it gives a message equal to the original. Every byte string that decodes to a message is the encoding of that message, so a message has one encoding. Headers, payloads, proofs and commitments on their own encode likewise. Messages are equal exactly if their headers and payloads are.",
  over=["inputs"], text="every sender, addressee, commitment polynomial, proof, share and nonce commitment, and every byte string",
  why="Tests round-trip a few random messages; a field that is swapped, shared or dropped for particular values goes unnoticed.",
  files=["pkg/messages/header.go","pkg/messages/messages.go","pkg/messages/keygen1.go","pkg/messages/keygen2.go","pkg/messages/sign1.go","pkg/messages/sign2.go","pkg/internal/polynomial/exponent.go","pkg/internal/zk/schnorr.go"],
  mech=[("BytesAppend and UnmarshalBinary","pkg/messages/messages.go")],
  technique=AI, note=TRUST),
 dict(id="C21", title="Sessions do not change or share what is not theirs",
  statement="Signing changes neither the key share, the public key material, the participant list nor the message it is given; key generation does not change the participant list. The messages a session sends and receives and the keys or signature it outputs share no memory with the session, so that using them later cannot change the session, nor the session them.",
  over=["inputs","histories"], text="every participant list, key, message and sequence of accepted messages",
  why="Aliasing shows only when something else changes the shared memory at the wrong moment.",
  files=["pkg/frost/sign/base.go","pkg/frost/keygen/round0.go","pkg/frost/keygen/round1.go","pkg/frost/keygen/round2.go","pkg/messages/sign1.go","pkg/messages/keygen2.go"],
  mech=[("copies of commitments","pkg/frost/keygen/round1.go"),("key output","pkg/frost/keygen/round2.go")],
  technique="alias and effect analysis of the abstract heap, on go/ssa by abstract interpretation", note=TRUST),
 dict(id="C17", title="Key material and signatures decode only when valid and survive encoding",
  statement="Public key material is made from shares and a threshold exactly if every party identifier is non-zero, every share is present and there are more parties than the threshold; it then holds exactly these shares, its parties in ascending order, and as group key the interpolation of the shares at zero. From JSON it decodes exactly if it could be made so from the shares and threshold given there and the group key given there is its group key. A key share holds the public share of its secret; its binary form (its JSON form) decodes exactly if it is (has) an identifier and a canonical scalar. A signature's binary form decodes exactly if it is a canonical group element and a canonical scalar. Key material, key shares, public keys and signatures survive encoding and decoding unchanged, whatever they are decoded into held before, and decoding never crashes. Key shares, public keys, public key material and signatures are equal exactly if their contents are.",
  over=["inputs"], text="every map of shares, threshold, key share, public key, signature, byte string and JSON document",
  why="Tests round-trip a few random keys; incomplete, inconsistent or non-canonical key material comes in too many forms to sample.",
  files=["pkg/eddsa/public.go","pkg/eddsa/secret_share.go","pkg/eddsa/signature.go","pkg/eddsa/public_key.go"],
  mech=[("NewPublic","pkg/eddsa/public.go"),("binary encodings","pkg/eddsa/secret_share.go")],
  technique=AI, note=TRUST),
 dict(id="C18", title="Sessions start exactly with valid configurations",
  statement="A key generation session starts if and only if its participants are non-zero and in strictly ascending order, include its own identifier, and the threshold is at least one and less than their number. A signing session starts if and only if the signers are non-zero and in strictly ascending order, include the owner of the key share, all belong to the public key material, and are more than its threshold. A session that starts has exactly the identifier and participants it was given, an empty output and is not finished; otherwise neither a session nor an output is returned.",
  over=["inputs","configurations"], text="every list of identifiers, own identifier, threshold, complete key material, message and timeout",
  why="Tests start sessions with a few valid configurations; the invalid ones (unsorted, duplicate, foreign, zero, too few or too many) cannot be enumerated.",
  files=["pkg/state/base_round.go","pkg/frost/keygen/round0.go","pkg/frost/keygen/base.go","pkg/frost/sign/base.go","pkg/frost/frost.go"],
  mech=[("NewRound of both protocols","pkg/frost/sign/base.go"),("NewBaseRound","pkg/state/base_round.go")],
  technique=AI, note=TRUST),
 dict(id="C19", title="Signatures and keys are Ed25519 signatures and keys",
  statement="For every group key, message, nonce and response, verification of a signature decides the Ed25519 equation with the challenge SHA-512(R, A, message), and agrees with Ed25519 verification of the exported key and signature. The exported key and signature are the Ed25519 encodings: 32 bytes, and 64 bytes of nonce and response. The Ed25519 encoding of a group element is that of the point of prime order among its representatives, whichever of them it holds. Verification changes neither key nor signature.",
  over=["inputs"], text="every group key, nonce, response, message and representative of a group element",
  why="Tests verify a few random signatures, whose representatives all happen to have prime order, and no signature that is nearly valid.",
  files=["pkg/eddsa/public_key.go","pkg/eddsa/signature.go","pkg/ristretto/ristretto.go"],
  mech=[("Verify and ComputeChallenge","pkg/eddsa/public_key.go"),("BytesEd25519","pkg/ristretto/ristretto.go")],
  technique=AI, note=TRUST),
 dict(id="C20", title="The group is ristretto255",
  statement="Group elements are encoded, decoded, compared and mapped from uniform bytes exactly as the ristretto255 specification says, for every representative and every byte string: only canonical encodings of elements decode, a refused encoding leaves the element as it was, and 64 bytes are needed for a uniform element. The text form is the base64 of the encoding, and decodes accordingly. Addition, subtraction, negation, and single, double and multiple scalar multiplication compute what they say.",
  over=["inputs"], text="every pair of points on the curve, pair of scalars, and byte string",
  why="Test vectors cover a few dozen elements and encodings out of 2^255; equality and canonicity errors show for special representatives only.",
  files=["pkg/ristretto/ristretto.go"],
  mech=[("SetCanonicalBytes, Bytes, Equal, mapToPoint","pkg/ristretto/ristretto.go")],
  technique="value numbering of the field arithmetic in algebraic normal form, on go/ssa by abstract interpretation, against the specification's formulas", note=TRUST),
 dict(id="C23", title="Polynomials, commitments and interpolation compute their algebra",
  statement="Evaluating a polynomial or a commitment at a non-zero point gives its value there; at zero it refuses. A new polynomial has the degree and constant asked for; its commitment commits to every coefficient; commitments are equal exactly if all coefficients are, add coefficient by coefficient exactly if their degrees agree, and evaluate for exactly the parties listed; an erased commitment or polynomial keeps its degree and has no coefficient other than zero. The Lagrange coefficient of a party exists exactly if it is non-zero and in the list, and is that of interpolation at zero. A secret shared among parties gives each exactly its value of a polynomial of the threshold's degree whose constant is the secret, and matching public shares. The scalar of an integer is that integer.",
  over=["inputs","configurations"], text="every polynomial, commitment, degree, point, list of distinct parties, and threshold",
  why="Tests evaluate a few random polynomials of small degree at small identifiers.",
  files=["pkg/internal/polynomial/polynomial.go","pkg/internal/polynomial/exponent.go","pkg/frost/party/id.go","pkg/helpers/keys.go","pkg/internal/scalar/scalar.go"],
  mech=[("evaluation","pkg/internal/polynomial/polynomial.go"),("evaluation in the exponent","pkg/internal/polynomial/exponent.go"),("Lagrange coefficients","pkg/frost/party")],
  technique=AI, note=TRUST),
 dict(id="C24", title="Identifiers and lists of them are encoded, compared and searched exactly",
  statement="An identifier's binary form is its two bytes in big-endian order and decodes to itself; decoding needs two bytes and reads the first two. Its text is its decimal form; a text decodes exactly if it is the decimal form of a number from 0 to 65535, to that number, and leaves the identifier alone otherwise. The scalar of an identifier is that number, so different identifiers have different scalars. Random identifiers are not zero. Lists are equal exactly if their elements are, one by one; on an ascending list, membership and inclusion are decided exactly. Sorting a list keeps its elements; the list of n parties is 1 to n in ascending order.",
  over=["inputs"], text="every identifier, byte string, text, list of identifiers, and number of parties",
  why="Tests convert a few identifiers and search short lists.",
  files=["pkg/frost/party/id.go","pkg/frost/party/idslice.go","pkg/helpers/parties.go"],
  mech=[("encodings","pkg/frost/party/id.go"),("Contains","pkg/frost/party/idslice.go")],
  technique=AI, note=TRUST),
 dict(id="C22", title="The commands report success only for real results",
  statement="The key generation command reports success only if it was given two numbers, a threshold of at least one and a larger number of parties of at most 100, ran the sessions of exactly these parties with this threshold, every one of them ended without an error, and the file it names was written without an error, readable by its owner only, with exactly every party's key share and the group's public key material. The signing command reports success only if the file it was given was read and decoded, has public key material and the key share of every party, the sessions of all parties signed the message given with them, and the signature printed verifies for that message and group key. Neither command crashes, whatever its arguments, the file's content, and the outcome of sessions and of reading and writing.",
  over=["inputs","fault_sequences"], text="every list of arguments, content of the key file, outcome of every session, and failure of reading, writing and encoding",
  why="The commands have no tests; failures of reading and writing and damaged key files are not tried.",
  files=["cmd/keygen/keygen.go","cmd/signer/signer.go"],
  mech=[("keygen main","cmd/keygen/keygen.go"),("signer main","cmd/signer/signer.go")],
  technique=AI+"; sessions, files and JSON are arbitrary stand-ins", note=TRUST),
 dict(id="C26", title="The party routine relays every message or reports why not",
  statement="The routine that runs a party on encoded messages decodes every one of them and hands them to the session in order, then runs the session once and gives the encoding of every message the session makes, in order. It fails exactly if a message does not decode, is refused by the session or does not encode, or the session has ended with an error; then it gives no messages.",
  over=["inputs","fault_sequences"], text="every list of byte strings, set of messages that the session refuses, list of messages it makes, and outcome of the session",
  why="Tests relay well-formed messages of honest sessions; a failure that is swallowed or a message that is skipped shows for particular inputs only.",
  files=["pkg/helpers/parties.go"],
  mech=[("PartyRoutine","pkg/helpers/parties.go")],
  technique=AI+"; the session and the message encoding are arbitrary stand-ins", note=TRUST),
 dict(id="C27", title="Honest parties are accepted and finish",
  statement="A party that follows the protocol is not refused: its key generation sends a commitment of the degree of the threshold with a proof of knowledge that verifies for its identifier and context, and to every other party the share its commitment gives there; its signing session sends nonce commitments and then the response that satisfies the equation the others check. With working randomness, making and sending them does not fail. Key generation ends with an output once all commitments and shares are accepted. Signing ends with a signature once all responses are accepted, if the keys of the signers fit the group key.",
  over=["inputs","histories"], text="every key, message, participant list, threshold, and messages of the other participants that are accepted",
  why="Tests run a few honest sessions; a party that refuses or fails for particular identifiers, thresholds or values does so rarely.",
  files=["pkg/frost/sign/round0.go","pkg/frost/sign/round1.go","pkg/frost/sign/round2.go","pkg/frost/keygen/round0.go","pkg/frost/keygen/round1.go","pkg/frost/keygen/round2.go"],
  mech=[("key generation rounds","pkg/frost/keygen/round1.go"),("signing rounds","pkg/frost/sign/round1.go")],
  technique=AI, note=TRUST),
 dict(id="C28", title="Secrets meet no branch, no variable-time operation and no output",
  statement="In key generation and signing sessions no nonce, polynomial coefficient, secret key share or received share decides which way the code goes (but for the validity of a received share, which is public), goes into an operation documented to take variable time, or gets into an error, panic, log or console output or package-level data. Signature responses are public once sent.",
  over=["inputs","histories"], text="every key, message, participant list, threshold, and message of the other participants",
  why="Leaks through timing, errors and logs show in no result; tests do not look for them.",
  files=["pkg/frost/sign/base.go","pkg/frost/sign/round0.go","pkg/frost/sign/round1.go","pkg/frost/keygen/round0.go","pkg/frost/keygen/round1.go","pkg/frost/keygen/round2.go","pkg/internal/zk/schnorr.go","pkg/internal/polynomial/polynomial.go"],
  mech=[("signing rounds","pkg/frost/sign/round1.go"),("key generation rounds","pkg/frost/keygen/round2.go")],
  technique="information flow (taint) of secret values through branches, variable-time operations and outputs, on go/ssa by abstract interpretation", note=TRUST),
 dict(id="C29", title="Sessions of one process do not disturb each other",
  statement="Package-level data of the library does not change after initialisation: no function of the library writes a package variable or anything reachable from one, through whatever pointers, slices, maps, closures or results, unless it is synchronised. So sessions, signing, verification, encoding and decoding on values of their own can run at the same time in one process, in any number, without a data race and without changing each other's results.",
  over=["schedules","histories"], text="every number of sessions and operations on distinct values, and every interleaving of them",
  why="Tests run sessions one after another or check results only; a shared scratch buffer or cache gives wrong results in rare interleavings.",
  files=["pkg/frost","pkg/state","pkg/messages","pkg/eddsa","pkg/ristretto","pkg/internal","pkg/helpers"],
  mech=[("group constants","pkg/ristretto/ristretto.go"),("domain separator","pkg/frost/sign/round1.go")],
  technique="whole-module alias and effect analysis of package-level data on go/ssa (flow-insensitive points-to of package data, mutation summaries, initialiser-only and lock-dominance exemptions)", note="Sound up to: reflection, unsafe and cgo (not used in the module), and the table of what functions outside the module change. Package main is left out: each command is one goroutine's business."),
]

NA = [
 dict(id="C90", title="Fewer than threshold+1 colluding parties cannot forge or learn the key",
  statement="No coalition of at most the threshold number of parties can produce a signature on a message the others did not agree to sign, or learn the group secret.",
  over=["inputs","histories"], text="every efficient adversary",
  why="A computational security claim; tests cannot express it.",
  files=["pkg/frost/sign","pkg/frost/keygen"], mech=[("the FROST protocol","pkg/frost")],
  reason="Computational security under discrete-log and random-oracle assumptions is a reduction, not a fact of the source a static analysis can decide; its structural necessary conditions are claimed separately (C01 to C08)."),
 dict(id="C91", title="Secret-dependent operations take constant time",
  statement="The time taken by operations on secret scalars does not depend on their values.",
  over=["inputs"], text="every secret value",
  why="Timing depends on compiled code and hardware.",
  files=["pkg/ristretto/ristretto.go","pkg/internal/scalar/scalar.go"], mech=[("constant-time arithmetic of filippo.io/edwards25519","go.mod")],
  reason="Timing is decided by the external edwards25519 module, the compiler and the hardware, none of which is in the repository's source."),
 dict(id="C92", title="Honest parties with a working network finish in bounded time",
  statement="If all parties are honest and every message is delivered within the timeout, every party's session finishes without error.",
  over=["schedules"], text="every delivery schedule within the timeout",
  why="End-to-end liveness quantifies over network schedules and wall-clock time.",
  files=["pkg/state/state.go"], mech=[("timeout","pkg/state/state.go")],
  reason="Depends on wall-clock time and on a transport that is not part of the repository; no static argument bounds it."),
]

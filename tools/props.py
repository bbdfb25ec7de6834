"""The properties: PROPS are claimed, NA are not. mkmanifest.py writes properties.jsonl and MANIFEST.json from here."""

AI = ("abstract interpretation of the source: gated value numbering over symbolic terms (no solver), "
      "per-path effect conditions and loop summaries compared with a written specification")
NOTE = ("Decides the listed obligations on the terms the analyser derives from the current source for every path, loop count, "
        "group size n=3t+1 and goroutine of the entry point. Trusts the models of library calls (group and field operations, "
        "pairing, Reed-Solomon, threshold signatures, hashes, channels, mutexes) and the stated reading of the protocol; "
        "termination, liveness and probability are not decided.")

PA = "internal/party/"
CO = "pkg/core/"


def p(id, title, statement, over, text, why, files, mech, note=NOTE, technique=AI, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
             technique=technique, note=note)
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=w) for n, w in state]
    return d


def na(id, title, statement, over, text, why, files, mech, reason):
    d = p(id, title, statement, over, text, why, files, mech)
    d["reason"] = reason
    return d


PROPS = [
    p("P01", "A member accepts only a verified initial share",
      "In the initial sharing a member takes over the dealer's share polynomial, commitments and witnesses only if the message is complete, g^s equals the exponents g^F(j) interpolated at 0, and for every j=1..2t+1 the witness of Z_j(0)=0 verifies, CB_j = CZ_j + g^F(j), and the value B_j at the member's own index verifies against CB_j. "
      "It then keeps exactly the verified commitments, the witnesses with their indexes, and the degree-2t polynomial interpolated from the 2t+1 values. "
      "When any check fails nothing the member held before is changed.",
      ["inputs", "configurations"],
      "every reliably broadcast commitment message and every point-to-point share message a dealer can send, for every group size n = 3t+1",
      "The tests run one honest dealer with one group size; a dealer that sends inconsistent commitments, witnesses or lists is never exercised.",
      [PA + "VSS.go", PA + "ShareReduce.go"],
      [("receive side of the initial sharing", PA + "VSS.go:VSSShareReceive")],
      state=[("member's share and public commitments", "the reduced share polynomial, the committed secret and the per-index commitments")]),
    p("P02", "The dealer shares one degree-2t polynomial per member and commits to it",
      "A client's sharing draws a fresh random polynomial F of degree 2t with F(0) equal to the secret, and for j=1..2t+1 fresh random polynomials B_j of degree t with B_j(0)=F(j) and Z_j=B_j-F(j). "
      "Member i is sent, at its own address and exactly once, the values B_j(i) with witnesses of those same polynomials, and the commitments CB_j, CZ_j, the witness of Z_j(0)=0, g^F(j) and g^s; all members are sent the same commitments. "
      "The secret held by the client is the one it was given.",
      ["inputs", "configurations"],
      "every secret, every group size n = 3t+1 and every random choice of the dealer",
      "The tests share one fixed secret in one group and only look at whether interpolation returns it, so wrong degrees, shared randomness between "
      "coefficients or a value placed in another member's message at other sizes go unnoticed.",
      [PA + "client.go"],
      [("dealing", PA + "client.go:Share"), ("secret setup", PA + "client.go:SetSecret")]),
    p("P03", "Reliable broadcast outputs only the value its hash names",
      "A reliable broadcast splits the proposer's value into n Reed-Solomon fragments of which t+1 suffice, and hands fragment j to member j together with the hash of the whole value. "
      "A member outputs a value only if it was reconstructed from fragments that distinct members sent under the one delivered hash, and only if the hash of the reconstructed value equals that hash; otherwise it outputs nothing. "
      "Fragments received under different hashes are never combined. A member tries to reconstruct as soon as 2t+1 members sent Ready for a hash, and outputs whatever fits the length and the hash.",
      ["inputs", "schedules", "histories"],
      "every sequence of propose, echo and ready messages from any senders and every interleaving of the receiving goroutines",
      "The tests broadcast one value among honest members that all send the same hash; fragments of a second value, repeated senders and undersized fragments do not occur.",
      [PA + "RBC.go", PA + "party_utils.go"],
      [("dispersal", PA + "RBC.go:RBCSend, RBCReceive"), ("reconstruction", PA + "RBC.go:RBCReceive")]),
    p("P04", "Reliable broadcast sends Ready only on a quorum and delivers on 2t+1",
      "A member sends Ready for a hash only after 2t+1 distinct members echoed the same fragment under that hash, or after t+1 distinct members sent Ready for the hash and t+1 distinct members echoed the fragment it sends. "
      "A member sends its echo once, for the first proposal of the designated proposer. "
      "It starts to deliver only after 2t+1 distinct members sent Ready for the same hash. Each of these things happens as soon as its quorum is complete, and Ready counts as sent only when it is.",
      ["inputs", "schedules", "histories"],
      "every sequence of echo and ready messages, including repetitions and different hashes, and every interleaving",
      "The tests only run honest members that all send one hash, where a lower quorum, a count across hashes or a count of repeated senders gives the same result.",
      [PA + "RBC.go"],
      [("echo and ready counting", PA + "RBC.go:RBCReceive")]),
    p("P05", "Zero sharings and their messages come from one fresh polynomial per index",
      "In proactivization each member draws a fresh random polynomial F of degree 2t with F(0)=0 and 2t+1 fresh random polynomials Q_j of degree t with Q_j(0)=F(j), for j=1..2t+1. "
      "Its broadcast Commit carries, for every j, the commitments of Q_j and of Z_j=Q_j-Q_j(0), the exponent g^F(j) and a witness of Z_j(0)=0, all of those same polynomials. "
      "The Reshare message to member i carries, for every j, the value Q_j(i) and its witness, and goes to every member once.",
      ["inputs", "configurations"],
      "every group size n = 3t+1, every random choice and every member",
      "The tests run one group size and accept any run whose final secret interpolates; swapped indices, reused randomness and wrong witnesses that some honest quorum tolerates pass.",
      [PA + "ProactivizeAndShareDist.go"],
      [("commit and reshare sending", PA + "ProactivizeAndShareDist.go:ProactivizeAndShareDist")]),
    p("P06", "A commitment to a zero sharing is accepted only after all its equations hold",
      "A member marks another member's zero sharing as committed only when the reliably broadcast Commit decodes completely, has every list of the required length, every witness of Z_j(0)=0 verifies, the commitments agree with the exponents (CQ_j = CZ_j + g^F(j)), and the exponents interpolate to an F with F(0)=0. "
      "On any failure none of that sharing's commitments is used; a Commit for which all of this holds is accepted, whichever member sent it.",
      ["inputs", "fault_sequences"],
      "every byte string a faulty member can reliably broadcast as its commitment, for every group size",
      "All commitments in the tests are generated by honest members, so a verification step that is skipped or mis-indexed never shows.",
      [PA + "ProactivizeAndShareDist.go"],
      [("verification of broadcast commitments", PA + "ProactivizeAndShareDist.go:ProactivizeAndShareDist")]),
    p("P07", "Members endorse a resharing only after all its values verify, once per sender",
      "A member sends its endorsement share on another member's resharing, and the Recover messages derived from it, only when that sender's commitment has been accepted and every one of the 2t+1 received values verifies against it at the receiving member's own index. "
      "Each sender's resharing is taken at most once, and the values forwarded for recovery are the ones that were verified, together with their witnesses; a resharing all of whose values verify is endorsed, whichever member sent it.",
      ["inputs", "schedules", "histories"],
      "every Reshare message from every sender, repeated or inconsistent, and every order against the commitments",
      "Tests contain no faulty resharing, no repeated message and no message that arrives before the commitment it refers to.",
      [PA + "ProactivizeAndShareDist.go"],
      [("Reshare, vote and Recover sending", PA + "ProactivizeAndShareDist.go:ProactivizeAndShareDist")]),
    p("P08", "Recovered polynomials are interpolated from verified points of distinct members",
      "For every sharing in the agreed set a member interpolates its own polynomial of degree t from t+1 points of distinct members, each verified against the accepted commitment at the sender's index. "
      "One Recover message counts per sender and sharing, and points of different sharings are never mixed; every verified point of a member is used until there are enough, whichever member sent it, and t+1 points are enough: recovery never waits for more.",
      ["inputs", "schedules", "histories"],
      "every sequence of Recover messages, including repetitions, bad points and any order relative to the agreement output",
      "The tests have no faulty resharing, so recovered points are always right and always come once per member.",
      [PA + "ProactivizeAndShareDist.go"],
      [("recovery", PA + "ProactivizeAndShareDist.go:ProactivizeAndShareDist")]),
    p("P09", "Only the agreed set of endorsed sharings enters the refresh",
      "A member proposes to the agreement t+1 members, each with a threshold signature on that member's resharing combined from 2t+1 valid signature shares of distinct members. "
      "The refreshed polynomial and the refreshed commitments both add exactly the sharings of the members the agreement output to the old ones, after all of those have been recovered. No step waits for more than these numbers, which the honest members alone can supply.",
      ["inputs", "schedules", "histories"],
      "every interleaving of endorsement signatures, agreement and recovery, and every content of endorsement messages",
      "In the tests all members endorse all sharings and every order gives a consistent set; missing waits, duplicate shares or a sum over another set are not distinguished.",
      [PA + "ProactivizeAndShareDist.go"],
      [("agreement input and refresh", PA + "ProactivizeAndShareDist.go:ProactivizeAndShareDist")]),
    p("P10", "A handoff hands each new member its own points, witnesses and commitments",
      "At a handoff an old member i sends each new member j, at its own address and exactly once, the commitment of index j, the value of its full share polynomial at j and the witness for that value; commitments and witnesses of indexes beyond the 2t+1 stored ones are interpolated in the exponent from the stored ones. "
      "It also sends every new member the commitments it holds for all indexes 1..2t+1, unchanged.",
      ["inputs", "configurations"],
      "every share polynomial, every set of commitments and witnesses and every group size n = 3t+1",
      "The test runs one handoff with one group size; a value sent to the wrong member or a stale witness is tolerated by the honest quorum that remains.",
      [PA + "ShareReduce.go"],
      [("sending at the handoff", PA + "ShareReduce.go:PrepareSend, ShareReduceSend")]),
    p("P11", "The new committee reduces only points that verify under an agreed commitment",
      "A new committee member interpolates its reduced share of degree t from t+1 points of distinct old members that carry the same commitment, each verified against that commitment at its sender's index; a point that fails verification, or a second one of the same sender, is never used. "
      "It takes over the commitments to the 2t+1 sharings only from a complete Prepare message of which t+1 distinct old members sent identical copies, and stores commitment k at index k. Every valid message of another member counts, and t+1 of them suffice.",
      ["inputs", "schedules", "histories"],
      "every sequence of commitment and point messages from the old committee, repeated, conflicting or malformed, and every order between them",
      "The tests have only honest old members whose messages all agree and arrive once.",
      [PA + "ShareReduce.go"],
      [("receiving at the handoff", PA + "ShareReduce.go:PrepareReceive, ShareReduceReceive")]),
    p("P12", "A new commitment is accepted only if it is the old one plus the agreed refresh",
      "After the refresh each member reliably broadcasts the commitment to its refreshed polynomial and sends every member j the value at j with a witness of that same polynomial. "
      "A member accepts the new commitment of member m only if it equals the old commitment at index m, interpolated in the exponent if it is not stored, plus the sum of the agreed refresh commitments at that index. "
      "It accepts whatever equals that. The commitments it keeps for the next handoff are the old ones plus that same sum.",
      ["inputs", "fault_sequences", "histories"],
      "every NewCommit broadcast a faulty member can send, every group size and successive handoffs",
      "The test commitments are all honest and only one handoff is run.",
      [PA + "ProactivizeAndShareDist.go"],
      [("share distribution", PA + "ProactivizeAndShareDist.go:ProactivizeAndShareDist")]),
    p("P13", "A new full share comes from 2t+1 verified values and ends on a quorum",
      "A member's new full share of degree 2t is interpolated from 2t+1 values of distinct members, each verified at the member's own index against its sender's accepted new commitment and counted once per sender. "
      "The witnesses and indexes kept for the next handoff are those of these same values. "
      "A member reports success only after it has its new share, and ends the phase only after it has its share and 2t+1 distinct members reported success. These 2t+1 are also enough: a member never waits for a value or a report of the last t members.",
      ["inputs", "schedules", "histories"],
      "every sequence of ShareDist and Success messages, repeated or invalid, and every order relative to the new commitments",
      "In the tests every distributed value is right and comes once, so a missing verification or a repeated sender does not show.",
      [PA + "ProactivizeAndShareDist.go"],
      [("share distribution", PA + "ProactivizeAndShareDist.go:ProactivizeAndShareDist")]),
    p("P14", "A broadcast proof rests on 2t+1 members that confirmed one value",
      "In the provable broadcast of the agreement a member signs a share only for the value that the designated sender of the instance sent, at most once for each stage, and in the second stage only after the combined signature on the first stage of that same value verifies. "
      "The signed message names the instance, the stage and the hash of the value. "
      "The sender combines a proof only from 2t+1 valid shares of distinct members on its own value, and hands the proof of the first stage over as the validation of the second.",
      ["inputs", "schedules", "histories"],
      "every sequence of Value and Echo messages from any member, repeated, conflicting, forged or late, in every round",
      "The tests have honest senders only; an echo for a second value, a share counted twice or a missing stage check leaves them green.",
      [PA + "pb.go", PA + "spb.go"],
      [("provable broadcast", PA + "pb.go:Sender, Receiver"), ("two stages", PA + "spb.go:SPBSender, SPBReceiver, validator")]),
    p("P15", "All members elect the same leader, unknown before a quorum is done",
      "The leader of a round is the threshold signature on the round's own coin name, combined from 2t+1 valid shares of distinct members and taken modulo n; the same leader is used by every handler of the round. "
      "A member releases its coin share only after 2t+1 distinct members proved that their broadcasts finished, each proof being checked for that member's own instance, or after t+1 valid coin shares of others.",
      ["inputs", "schedules"],
      "every sequence of Finish and Done messages, including forged and repeated ones, in every round",
      "A coin that can be known early, or that differs between rounds or members only under faults, does not show in runs with honest members.",
      [PA + "main_process.go", PA + "message_handler.go"],
      [("election", PA + "main_process.go:election"), ("coin and finish counting", PA + "message_handler.go:messageHandler")]),
    p("P16", "A member's votes carry valid justifications",
      "A member's PreVote is Yes with the leader's value and its first stage proof exactly when it holds that lock, after all broadcasts of the round have been stopped and waited for, and otherwise No with its share on the round's No message. "
      "It votes Yes only with a value whose first stage proof for the leader's instance verified, adding its share on the second stage of that value; it votes No only with a signature combined from 2t+1 valid No shares of distinct members, adding its share on the round's unlock message. A valid Yes PreVote is acted on whichever member sent it.",
      ["inputs", "schedules", "histories"],
      "every sequence of PreVote messages and every interleaving of the broadcasts with the election",
      "With honest members and fast delivery the leader's broadcast nearly always completes, so No votes and late locks are never exercised.",
      [PA + "main_process.go", PA + "message_handler.go"],
      [("prevote and vote", PA + "main_process.go:preVote, vote"), ("prevote handler", PA + "message_handler.go:messageHandler")]),
    p("P17", "A decision is proved, announced, and binds the next round",
      "A member decides a value only with a proof that the leader's broadcast of exactly that value completed: a checked Finish or Halt message, or a signature combined from 2t+1 valid Yes shares of distinct members; and it sends that proof to all members before it stops. "
      "A round that ends undecided ends on 2t+1 valid votes of distinct members: if any was Yes the next round starts with the value and proof of a verified Yes vote, and only if all were No does it keep its own value, extending the validation by the combined No proof. "
      "No broadcast of a round still runs when the next one starts. A valid Halt is acted on whichever member sent it, and a member that holds the leader's Finish decides instead of voting.",
      ["inputs", "schedules", "histories"],
      "every sequence of Finish, Halt and Vote messages over any number of rounds",
      "Tests decide in the first round by the short cut; the vote rules and the carry-over to later rounds are hardly ever executed.",
      [PA + "main_process.go", PA + "message_handler.go"],
      [("rounds and decisions", PA + "main_process.go:MainProcess"), ("halt and vote handlers", PA + "message_handler.go:messageHandler")]),
    p("P18", "Messages cross a connection whole, in order and unchanged",
      "Each message put on a send channel is written to the connection dialed to the given address as one frame: the big-endian length, then exactly its encoding. "
      "After a write error nothing more is written on that connection, and the channel is drained so that its users do not block. "
      "A receiver reads a length and then exactly that many bytes in full, delivers exactly the decoded message once and in order, skips what does not decode, and stops at the first read error. Each accepted connection is served on its own.",
      ["inputs", "schedules", "fault_sequences"],
      "every message size, every way the network splits or delays the bytes, and a failure at any byte of any connection",
      "On the loopback small frames arrive in one piece and no connection fails, so a short read or a partial write does not show.",
      [CO + "send.go", CO + "receive.go", "pkg/utils/utils.go"],
      [("sending", CO + "send.go:MakeSendChannel"), ("receiving", CO + "receive.go:MakeReceiveChannel")]),
    p("P19", "A message goes to its addressee, type and instance, once and in order",
      "A send to member d uses the channel connected to d's address in the right committee list, a broadcast uses every member's channel exactly once, and both report an error exactly when nothing was sent because a channel or the index is missing. "
      "The listener opens the member's own port. One dispatcher hands every received message of a member (or of a dealer) to the mailbox of its type and instance, exactly once and in the order of arrival, dropping none; readers and dispatcher agree on one mailbox of n^2 places, whichever asks for it first.",
      ["inputs", "schedules", "configurations"],
      "every message type, instance, destination, committee and interleaving of readers and dispatcher",
      "Tests run on one address with ordered ports; a message for the wrong committee, or a mailbox created twice in a race, does not show.",
      [PA + "party_utils.go", CO + "dispatche.go"],
      [("addressing", PA + "party_utils.go:Send, Broadcast, InitSendChannel"), ("dispatch", CO + "dispatche.go:MakeDispatcheChannels"), ("mailboxes", PA + "party_utils.go:GetMessage")]),
    p("P20", "What is sent under a message type is what its readers decode",
      "The envelope of the agreement's messages carries the given type, instance and sender, with exactly the encoding of the payload as data, and opening it gives back a payload of that type. "
      "Every message type that any phase sends is taken from its mailbox by some phase and the other way round; its data is decoded as the payload type it was encoded from; and only the hand-over messages of the old committee go to the new one.",
      ["inputs", "configurations"],
      "every message type and payload of all phases",
      "A type or payload mixed up on a path that needs a faulty member, as a Halt after a late proof, is not reached by the tests.",
      [CO + "message_encapsulation.go", PA + "main_process.go"],
      [("envelope", CO + "message_encapsulation.go:Encapsulation, Decapsulation")]),
    p("P21", "Concurrent handlers never race on shared state and use locks safely",
      "No two accesses to one location of a member's shared state, at least one of them a write, happen in goroutines that may run at the same time unless a common lock, a start, a channel, a wait group or the member's own message orders them; a map counts as one location. "
      "Every lock is released exactly as often as it is taken on every path, is not taken again while held, and no two locks are taken in both orders.",
      ["schedules"],
      "every interleaving of the message handlers, senders and phases of a member",
      "A race needs two messages to arrive within nanoseconds of each other, and a lock order inversion a particular pair of handlers; a test run samples few of those schedules.",
      [PA + "ProactivizeAndShareDist.go", PA + "RBC.go", PA + "main_process.go", PA + "message_handler.go", PA + "pb.go"],
      [("handoff phases", PA + "ProactivizeAndShareDist.go:ProactivizeAndShareDist"), ("broadcast", PA + "RBC.go:RBCReceive"), ("agreement", PA + "main_process.go:MainProcess")]),
    p("P22", "No message or connection failure of a peer can crash a member",
      "Once its connections are set up, whatever other members send - lists of any length, missing parts, numbers of any size, values that do not decode - and whenever their connections break, a member neither ends its process nor takes an element, a part or a field of something that does not exist.",
      ["inputs", "histories", "fault_sequences"],
      "every content of every message of all phases, and every failure of a connection",
      "Honest members only send well-formed messages, so an index taken from a message or a list assumed to be long enough never fails in a test.",
      [PA + "VSS.go", PA + "ShareReduce.go", PA + "ProactivizeAndShareDist.go", PA + "RBC.go", PA + "message_handler.go", CO + "receive.go"],
      [("dealing", PA + "VSS.go:VSSShareReceive"), ("handoff", PA + "ProactivizeAndShareDist.go:ProactivizeAndShareDist"), ("broadcast", PA + "RBC.go:RBCReceive"), ("connections", CO + "receive.go:MakeReceiveChannel")]),
    p("P23", "No secret of a member or dealer is logged or sent to anyone it is not for",
      "Nothing a member or the dealing client logs, broadcasts or hands to a sub-protocol lets anyone compute its secret, its shares, its signing key, the randomness it drew, or what it received for itself only; "
      "a message to one member carries of such values only what belongs to that member (the polynomial evaluated at, or the share meant for, its own index), and otherwise only commitments, proofs and signatures.",
      ["inputs", "schedules"],
      "every log line and message of every phase, destination and sender",
      "A leak changes no result, so no test notices it.",
      [PA + "client.go", PA + "VSS.go", PA + "ShareReduce.go", PA + "ProactivizeAndShareDist.go", PA + "keygen.go", CO + "send.go", CO + "receive.go"],
      [("dealing", PA + "client.go:Share"), ("handoff", PA + "ProactivizeAndShareDist.go:ProactivizeAndShareDist"), ("connections", CO + "receive.go:MakeReceiveChannel")]),
    p("P24", "Keys of a committee come from one fresh polynomial; new members start consistent",
      "Key generation draws for each of the two committees its own random polynomial with as many coefficients as the threshold, and writes exactly these coefficients to that committee's file, readable by its owner only, or fails. "
      "Reading a committee's keys returns the n shares and the public key of exactly the polynomial in that file, or nothing. "
      "A new member holds the given lists, numbers and keys, state of the sizes its committee needs, commitment parameters common to all members that cover t+1 coefficients, and the table that maps values at 1..2t+1 to the value at each i in 0..n.",
      ["inputs", "configurations"],
      "every committee size and threshold",
      "Tests generate and read keys with the same code and few sizes; two committees with one polynomial, or a key file with a coefficient too few, still work in them.",
      [PA + "keygen.go", PA + "party.go"],
      [("keys", PA + "keygen.go:GenCoefficientsFile, SigKeyGen, SigKeyGenFix, SigKeyGenFix_New"), ("members", PA + "party.go:NewHonestParty")]),
    p("P25", "The command line program runs every role as the other roles expect",
      "Generation uses n members and threshold 2t+1, and every role reads keys with the same numbers. A role sets up its member with its own committee's lists and keys, the key share of its own number and the lists of the committee it hands over to; the client's number is no member's. "
      "It opens its listener, waits, connects, and then runs exactly its phases, once each and in an order in which each has what it needs; the two sides of every phase use the same session ID; and the process stays up after its last phase.",
      ["configurations", "schedules"],
      "every role, committee size and member number",
      "No test runs the program.",
      ["cmd/DyCAPs/main.go"],
      [("roles", "cmd/DyCAPs/main.go:main")]),
    p("P26", "Field and group operations compute what they are named after, on every backend",
      "In each of the four builds of the arithmetic, every exported operation on scalars and on points stores exactly the named function of its operands in its destination and nowhere else, also when the destination is one of the operands; "
      "comparisons, encodings and decodings agree with it (decoding what was encoded gives the same element, and what is no canonical element is refused or reduced as documented), linear combinations and batch inversions are those of their elements, "
      "the pairing check compares e(a1,a2) with e(b1,b2), and the published constants (zero, one, minus one, generators, roots of unity) have their values and are never changed.",
      ["inputs", "configurations"],
      "every operand, aliasing of operands and destination, and every arithmetic backend",
      "The tests are built with one backend and never alias operands; the other backends do not even compile with the tests of the protocol.",
      ["internal/bls/bignum_kilic.go", "internal/bls/bignum_hbls.go", "internal/bls/bignum_hol256.go", "internal/bls/bignum_pure.go", "internal/bls/bls_kilic.go", "internal/bls/bls_hbls.go", "internal/bls/globals.go"],
      [("scalars", "internal/bls/bignum_kilic.go, bignum_hbls.go, bignum_hol256.go, bignum_pure.go"), ("points", "internal/bls/bls_kilic.go, bls_hbls.go"), ("constants", "internal/bls/globals.go")],
      note="Decides the listed obligations on the terms derived from the source of each wrapper, relative to models of the underlying arithmetic libraries; the libraries themselves and the string form of points are outside.",
      technique="abstract interpretation of the source to symbolic terms, compared with a table of contracts (one per operation, backend and aliasing pattern); a write-set analysis for constants"),
    p("P27", "Commitments, openings, their check and interpolation are the specified functions",
      "Evaluation of a coefficient list at x gives the value of that polynomial, also at zero and when the result overwrites the point; a commitment is the combination of the setup powers with the coefficients; an opening at x commits to the quotient (f(X)-f(x))/(X-x); "
      "an opening is accepted exactly if e(C - [y], h) = e(w, [s] - [x]h); the setup consists of consecutive powers of one secret in both groups; Lagrange coefficients at a target and interpolation through given points are the unique ones, for every number of points, and no input outside the documented ones stops the process.",
      ["inputs", "configurations"],
      "every polynomial, point, number of coefficients and number of points",
      "Tests use few fixed sizes and random points; wrong results at zero, with an aliased destination, or for particular lengths do not occur in them.",
      ["internal/bls/globals.go", "internal/polycommit/kzg.go", "internal/polycommit/kzg_single_proofs.go", "internal/polycommit/setup.go", "internal/polyring/interpolation.go", PA + "party_utils.go"],
      [("evaluation", "internal/bls/globals.go:EvalPolyAtUnoptimized, LinCombFr"), ("commitments", "internal/polycommit/kzg_single_proofs.go:ComputeProofSingle, CheckProofSingle"), ("interpolation", "internal/polyring/interpolation.go:LagrangeInterpolate")],
      note="Loops are summarised to closed forms for every length; a form that is not literally the specified one is compared as a rational function at random points for a range of small lengths (identity testing of the derived formula; the program is not run). Relative to the models of the arithmetic in P26.",
      technique="abstract interpretation of the source: closed-form loop summaries compared with the specified formula by normalisation and polynomial identity testing of the terms"),
    p("P28", "All scalars are drawn from the system's generator, each anew",
      "In every build a random scalar is uniform over the whole field, comes from the operating system's cryptographic generator and is a new object for each draw; when the generator fails no scalar is returned. "
      "A random polynomial of degree d has d+1 coefficients, each of its own draw, and nothing else in the process replaces, seeds or shadows the generator or keeps a drawn scalar for a second use.",
      ["inputs", "configurations", "fault_sequences"],
      "every degree, every sequence of draws, every failure of the generator, every backend",
      "No test can see that a scalar was predictable, reused, or used after a failed draw.",
      ["internal/bls/bignum_kilic.go", "internal/bls/bignum_hbls.go", "internal/bls/bignum_hol256.go", "internal/bls/bignum_pure.go", "internal/polyring/polyring.go"],
      [("draws", "internal/bls/bignum_*.go:RandomFr"), ("polynomials", "internal/polyring/polyring.go:NewRandPoly")],
      note="That the masks of the protocol themselves are such draws is decided in P05, P10, P12 and P24; the quality of the operating system's generator is assumed.",
      technique="abstract interpretation of the source to symbolic terms: origin and freshness of each random term, path conditions of its use after a failed draw, and a write-set analysis of the generator"),
    p("P29", "A member never deadlocks on its own goroutines or on one silent peer",
      "Every value, lock or count a goroutine of a member waits for is given by its other goroutines without that wait having to end first, whatever peers send: there is no circle of waits through channels, locks and wait groups, and a value sent once is not awaited twice. "
      "A send to an internal channel does not block while its goroutine still has work others depend on or holds a lock; no goroutine holds a lock while it takes a message of a peer (a whole agreement run under a lock excepted, on which nothing under that lock depends), and no step waits for something of each of the N members, so up to t silent ones do not stop the others. Nothing that one peer sends alone, a repetition or an invalid message, ends a goroutine that has messages of others to take, and whatever is taken or awaited per member is there for all N. "
      "A wait group is counted down as often as it is raised; when the context of an agreement is cancelled every goroutine of it that takes messages returns instead of going on, and a member that has decided cancels it.",
      ["schedules", "fault_sequences"],
      "every schedule of a member's goroutines, every set of at most t silent members, every order of arriving messages",
      "Tests run with every member present and one schedule; a wait that only a silent member or a rare order exposes never ends there.",
      [PA + "ProactivizeAndShareDist.go", PA + "RBC.go", PA + "main_process.go", PA + "message_handler.go", PA + "pb.go"],
      [("handoff signals", PA + "ProactivizeAndShareDist.go:ProactivizeAndShareDist"), ("reliable broadcast", PA + "RBC.go:RBCReceive"),
       ("agreement", PA + "main_process.go:MainProcess"), ("provable broadcast", PA + "pb.go:Sender")],
      note="That enough messages of peers arrive is assumed (N01); goroutines that still wait for a signal of an agreement that is already decided and cancelled do no harm and are not counted; the bounded mailboxes and the dispatcher, through which a flood of messages for one instance can delay the others, are described in DESIGN.md, section 6.",
      technique="analysis of waits: fixpoint over the graph of receives, locks and wait groups with their path conditions; bounds on the number of sends against channel capacities, from loop-carried flags and counters"),
]

NA = [
    na("N01", "Agreement, reliable broadcast and handoff eventually terminate",
       "With at most t faulty members and eventual delivery, every honest member completes each handoff phase.",
       ["schedules", "fault_sequences"], "every fair schedule and every behaviour of at most t members",
       "Tests run one schedule with no faulty member.",
       [PA + "main_process.go"], [("phases", PA)],
       "Liveness under fair schedules with randomised agreement is a temporal and probabilistic property; no static argument in reach bounds it."),
]

-------------------------------- MODULE MPI --------------------------------
(* The network of the ranks: every rank executes its program of communication operations
   (recorded from the implementation), and every interleaving and every choice of the library
   between a buffered and a rendezvous send is explored.
   Messages between two ranks with the same tag do not overtake each other.

   Operation <<kind, peer or root, tag, request>>:
     send, recv, probe          blocking
     isend, irecv, wait         requests are numbered per rank
     anything else              a collective operation: synchronises all ranks *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i,        \* the case
          pc,       \* rank -> number of operations that are complete
          wait,     \* ranks inside a send that waits for its receive
          chan,     \* <<source, destination>> -> sequence of messages <<tag, kind, request>>
          inn,      \* rank -> posted receives <<request, source, tag>>
          out,      \* rank -> requests of sends that are not received
          verdict
vars == <<i, pc, wait, chan, inn, out, verdict>>

C == Cases[i]
N == C.n
Ranks == 0..(N - 1)
Prog(r) == C.prog[r + 1]
AtEnd(r) == pc[r] = Len(Prog(r))
Op(r) == Prog(r)[pc[r] + 1]
P2P == {"send", "recv", "isend", "irecv", "wait", "probe"}
IsColl(r) == ~AtEnd(r) /\ Op(r)[1] \notin P2P

Init == /\ i \in 1..Len(Cases)
        /\ pc = [r \in 0..(Cases[i].n - 1) |-> 0]
        /\ wait = {}
        /\ chan = [e \in {} |-> <<>>]
        /\ inn = [r \in 0..(Cases[i].n - 1) |-> <<>>]
        /\ out = [r \in 0..(Cases[i].n - 1) |-> {}]
        /\ verdict = "?"

Chan(s, d) == IF <<s, d>> \in DOMAIN chan THEN chan[<<s, d>>] ELSE <<>>
SetChan(s, d, q) ==
  IF q = <<>> THEN [e \in DOMAIN chan \ {<<s, d>>} |-> chan[e]]
  ELSE [e \in DOMAIN chan \cup {<<s, d>>} |-> IF e = <<s, d>> THEN q ELSE chan[e]]
Matches(s, d, tag) == {n \in DOMAIN Chan(s, d) : tag = -1 \/ Chan(s, d)[n][1] = tag}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Without(q, n) == SubSeq(q, 1, n - 1) \o SubSeq(q, n + 1, Len(q))
Sources(src) == IF src = -1 THEN Ranks ELSE {src}

Send(r) ==
  /\ ~AtEnd(r) /\ r \notin wait /\ Op(r)[1] = "send"
  /\ \/ /\ C.buffered                            \* the library takes the message
        /\ chan' = SetChan(r, Op(r)[2], Append(Chan(r, Op(r)[2]), <<Op(r)[3], "b", 0>>))
        /\ pc' = [pc EXCEPT ![r] = @ + 1] /\ UNCHANGED wait
     \/ /\ chan' = SetChan(r, Op(r)[2], Append(Chan(r, Op(r)[2]), <<Op(r)[3], "s", 0>>))
        /\ wait' = wait \cup {r} /\ UNCHANGED pc  \* or it waits for the receive
  /\ UNCHANGED <<inn, out>>

ISend(r) ==
  /\ ~AtEnd(r) /\ Op(r)[1] = "isend"
  /\ chan' = SetChan(r, Op(r)[2], Append(Chan(r, Op(r)[2]), <<Op(r)[3], "i", Op(r)[4]>>))
  /\ out' = [out EXCEPT ![r] = @ \cup {Op(r)[4]}]
  /\ pc' = [pc EXCEPT ![r] = @ + 1]
  /\ UNCHANGED <<wait, inn>>

(* the message at place n of the channel from s to r is received; adv: r's operation completes with it *)
Deliver(s, r, n, adv) ==
  LET m == Chan(s, r)[n]
  IN /\ chan' = SetChan(s, r, Without(Chan(s, r), n))
     /\ wait' = IF m[2] = "s" THEN wait \ {s} ELSE wait
     /\ out' = IF m[2] = "i" THEN [out EXCEPT ![s] = @ \ {m[3]}] ELSE out
     /\ pc' = [q \in Ranks |-> pc[q] + (IF q = r /\ adv THEN 1 ELSE 0) + (IF q = s /\ m[2] = "s" THEN 1 ELSE 0)]

Recv(r) ==
  /\ ~AtEnd(r) /\ r \notin wait /\ Op(r)[1] = "recv"
  /\ \E s \in Sources(Op(r)[2]) :
       /\ Matches(s, r, Op(r)[3]) # {}
       /\ Deliver(s, r, First(Matches(s, r, Op(r)[3])), TRUE)
  /\ UNCHANGED inn

Probe(r) ==
  /\ ~AtEnd(r) /\ Op(r)[1] = "probe"
  /\ \E s \in Sources(Op(r)[2]) : Matches(s, r, Op(r)[3]) # {}
  /\ pc' = [pc EXCEPT ![r] = @ + 1]
  /\ UNCHANGED <<wait, chan, inn, out>>

IRecv(r) ==
  /\ ~AtEnd(r) /\ Op(r)[1] = "irecv"
  /\ inn' = [inn EXCEPT ![r] = Append(@, <<Op(r)[4], Op(r)[2], Op(r)[3]>>)]
  /\ pc' = [pc EXCEPT ![r] = @ + 1]
  /\ UNCHANGED <<wait, chan, out>>

Match(r) ==
  \E k \in DOMAIN inn[r] : \E s \in Sources(inn[r][k][2]) :
    /\ Matches(s, r, inn[r][k][3]) # {}
    /\ Deliver(s, r, First(Matches(s, r, inn[r][k][3])), FALSE)
    /\ inn' = [inn EXCEPT ![r] = Without(@, k)]

Wait(r) ==
  /\ ~AtEnd(r) /\ Op(r)[1] = "wait"
  /\ Op(r)[4] \notin out[r]
  /\ \A k \in DOMAIN inn[r] : inn[r][k][1] # Op(r)[4]
  /\ pc' = [pc EXCEPT ![r] = @ + 1]
  /\ UNCHANGED <<wait, chan, inn, out>>

Collective ==
  /\ \A r \in Ranks : IsColl(r)
  /\ \A r \in Ranks : Op(r)[1] = Op(0)[1] /\ Op(r)[2] = Op(0)[2]
  /\ pc' = [r \in Ranks |-> pc[r] + 1]
  /\ UNCHANGED <<wait, chan, inn, out>>

Step == /\ verdict = "?"
        /\ \/ \E r \in Ranks : Send(r) \/ ISend(r) \/ Recv(r) \/ Probe(r) \/ IRecv(r) \/ Match(r) \/ Wait(r)
           \/ Collective
        /\ UNCHANGED <<i, verdict>>

Final == CASE \E r \in Ranks : ~AtEnd(r) ->
                "a rank waits forever"
           [] DOMAIN chan # {} -> "a message is left unreceived"
           [] \E r \in Ranks : inn[r] # <<>> -> "a posted receive is left"
           [] Cardinality({C.ends[r + 1] : r \in Ranks}) > 1 -> "some ranks stop with an error and others do not"
           [] C.ends[1] # C.expect /\ C.expect # "any" -> "the ranks should not end with: " \o C.ends[1]
           [] OTHER -> "ok"

Judge == /\ verdict = "?" /\ ~ENABLED Step
         /\ verdict' = Final
         /\ IF Final = "ok" THEN TRUE ELSE PrintT(<<"V", i, Final>>)
         /\ UNCHANGED <<i, pc, wait, chan, inn, out>>

Next == Step \/ Judge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* no rank overtakes another by a collective operation *)
Colls(r) == Cardinality({n \in 1..pc[r] : Prog(r)[n][1] \notin P2P})
CollectivesInStep == \A r, q \in Ranks : Colls(r) = Colls(q)
Ends == <>(verdict # "?")
=============================================================================

------------------------------ MODULE NodeTrace ------------------------------
(***************************************************************************)
(* Recorded uses of connected nodes judged against Node.tla.               *)
(*  r.steps: [act, net, node, op, mood, contacted, exc, val, amts, want,   *)
(*            wantamts, sent]                                              *)
(*  doors: scheme, path, credentials and certificate check of each contact, *)
(*  door: those the node was connected with                                *)
(*  a direct call: sent the calls the node saw, hex the call made          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)
Has(seq, x) == \E i \in 1..Len(seq) : seq[i] = x
RECURSIVE ConnAt(_, _, _)
ConnAt(r, i, n) == IF i = 0 THEN "web" ELSE IF r.steps[i].act = "connect" /\ r.steps[i].net = n THEN r.steps[i].node ELSE ConnAt(r, i - 1, n)

StepFail(r, i) ==
    LET s == r.steps[i]
        target == IF s.act = "direct" THEN s.node ELSE ConnAt(r, i - 1, s.net)
        node == target # "web"
    IN
    IF s.act = "connect" THEN (IF s.exc # <<>> THEN {"connect-error"} ELSE {})
    ELSE {c \in {"wrong-endpoint", "not-asked", "answer", "amount", "error-hidden", "error-kind", "unexpected-error", "refusal-hidden", "submission", "call", "door"} :
          CASE c = "wrong-endpoint" -> \E j \in 1..Len(s.contacted) : s.contacted[j] # target
            [] c = "not-asked" -> s.contacted = <<>>
            [] c = "unexpected-error" -> s.mood = "ok" /\ s.exc # <<>>
            [] c = "answer" -> s.mood = "ok" /\ s.exc = <<>> /\ s.val # s.want
            [] c = "amount" -> s.mood = "ok" /\ s.exc = <<>> /\ s.amts # s.wantamts
            [] c = "door" -> \E j \in 1..Len(s.doors) : s.doors[j] # s.door
            [] c = "call" -> s.act = "direct" /\ s.mood # "refused" /\ s.mood # "timeout" /\ s.sent # <<s.hex>>
            [] c = "submission" -> s.op = "broadcast" /\ s.mood \in {"ok", "rpc-error"} /\ node /\ s.sent # <<s.hex>>
            [] c = "error-hidden" -> node /\ s.mood # "ok" /\ s.exc = <<>>
            [] c = "refusal-hidden" -> node /\ s.op = "broadcast" /\ s.mood = "rpc-error" /\ s.exc # <<>> /\ ~Has(s.exc, "ConnectionError")
            [] c = "error-kind" -> node /\ s.exc # <<>> /\
                   CASE s.mood = "refused" -> ~Has(s.exc, "ConnectionError")
                     [] s.mood \in {"rpc-error", "status"} /\ s.op # "broadcast" -> ~Has(s.exc, "BitcoinNodeException")
                     [] OTHER -> FALSE}
Fail(r) == UNION {StepFail(r, i) : i \in 1..Len(r.steps)}
TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k]))]))
=============================================================================

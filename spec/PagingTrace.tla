----------------------------- MODULE PagingTrace -----------------------------
(***************************************************************************)
(* r.size items are held by the only working service; r.got is the         *)
(* returned listing, each item as the index of the held item it equals in  *)
(* every field (0: equals none).  r.faulted: some request of the service   *)
(* was answered with an error.                                             *)
(***************************************************************************)
EXTENDS Services, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)
Is(r, c) == \E i \in 1..Len(r.exc) : r.exc[i] = c

\* The listing the service can prove complete.
Excessive(r) ==
    \/ r.op = "transactions" /\ r.svc = "Blockstream" /\ r.unconf >= 50
    \/ r.op = "unspents" /\ r.svc = "Blockstream" /\ r.size > r.limit
    \/ r.op = "unspents" /\ r.svc = "Blockchain" /\ r.size >= 1000

Complete(r) == Len(r.got) = r.size /\ ToSet(r.got) = 1..r.size

Fail(r) ==
    {c \in {"error-ignored", "incomplete", "duplicate", "altered", "needless-failure", "wrong-error"} :
     CASE c = "error-ignored" -> r.exc = <<>> /\ r.faulted /\ ~Complete(r)
       [] c = "altered" -> r.exc = <<>> /\ 0 \in ToSet(r.got)
       [] c = "duplicate" -> r.exc = <<>> /\ Cardinality(ToSet(r.got)) # Len(r.got)
       [] c = "incomplete" -> r.exc = <<>> /\ ~Complete(r)
       [] c = "needless-failure" -> r.exc # <<>> /\ ~r.faulted /\ ~Excessive(r)
       [] c = "wrong-error" -> r.exc # <<>> /\ ~Is(r, "ConnectionError")}

TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k]))]))
=============================================================================

---------------------------- MODULE OverlapTrace -----------------------------
(***************************************************************************)
(* Recorded overlapping calls, judged by Overlap.tla's property.           *)
(*  r.ct      cache time;  r.fee   fees (or else rates)                    *)
(*  r.answers [t, vals (by key)] as the service gave them                  *)
(*  r.calls   [key, start, end, ret, exc, asked, answered, hang]           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)
Default == [fast |-> 72, hour |-> 62]
Has(c, n) == \E i \in 1..Len(c.exc) : c.exc[i] = n
CallFail(r, c) ==
    LET given == {i \in 1..Len(r.answers) : r.answers[i].vals[c.key] = c.ret /\ r.answers[i].t <= c.end}
        fresh == \E i \in given : c.start - r.answers[i].t <= r.ct
        down == c.asked /\ ~c.answered           \* it asked and got no answer itself
    IN  {f \in {"overlap-hang", "overlap-raised", "overlap-stale", "overlap-missing"} :
          CASE f = "overlap-hang" -> c.hang
            [] f = "overlap-raised" -> ~c.hang /\ c.exc # <<>> /\ (r.fee \/ ~down \/ ~Has(c, "ConnectionError"))
            [] f = "overlap-stale" -> ~c.hang /\ c.exc = <<>> /\ given # {} /\ ~fresh /\ ~(down /\ r.fee)
            [] f = "overlap-missing" -> ~c.hang /\ c.exc = <<>> /\ given = {} /\ ~(down /\ r.fee /\ c.ret = Default[c.key])}
Fail(r) == UNION {CallFail(r, r.calls[i]) : i \in 1..Len(r.calls)}
TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k]))]))
=============================================================================

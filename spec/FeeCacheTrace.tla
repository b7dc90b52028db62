---------------------------- MODULE FeeCacheTrace ----------------------------
(* Recorded histories of calls against the cache of FeeCache.tla.            *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, Json, IOUtils

FC == INSTANCE FeeCache WITH cache <- 0, now <- 0, ct <- 0, srv <- 0, hist <- <<>>, ver <- 0, seen <- 0,
                             Deltas <- {}, CacheTimes <- {}, MaxCalls <- 0, Downs <- {}
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)

Start == [cache |-> [s \in FC!Speeds |-> FC!Empty], now |-> 0, ct |-> 600, srv |-> [up |-> TRUE, fast |-> 100, hour |-> 200], fail |-> {}]
StepOf(st, e) ==
    CASE e.e = "tick" -> [st EXCEPT !.now = @ + e.d]
      [] e.e = "ct" -> [st EXCEPT !.ct = e.t]
      [] e.e = "srv" -> [st EXCEPT !.srv = [up |-> e.up, fast |-> e.fast, hour |-> e.hour]]
      [] e.e = "call" ->
            LET a == FC!Answer(st.cache, e.speed, st.now, st.ct, st.srv)
                bad == {c \in {"raised", "wrong-fee", "needless-fetch", "missing-fetch"} :
                        CASE c = "raised" -> e.raised
                          [] c = "wrong-fee" -> ~e.raised /\ e.ret # a.ret
                          [] c = "needless-fetch" -> e.fetches > 0 /\ ~a.fetch
                          [] c = "missing-fetch" -> e.fetches = 0 /\ a.fetch}
            IN  [st EXCEPT !.cache = a.cache, !.fail = @ \cup bad]
      [] e.e = "fresh" ->
            [st EXCEPT !.fail = @ \cup (IF e.raised THEN {"raised"} ELSE IF e.ret # st.srv[e.speed] THEN {"wrong-fee"} ELSE {})
                                  \cup (IF e.fetches = 0 THEN {"missing-fetch"} ELSE {})]
      [] OTHER -> st
Fail(h) == FoldLeft(StepOf, Start, h).fail
TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k].hist))]))
=============================================================================

--------------------------- MODULE RateCacheTrace ---------------------------
(***************************************************************************)
(* Recorded conversions.  A call event carries the providers contacted (in *)
(* order), which of them were up, the value each would have quoted, the    *)
(* amount given and the result.                                            *)
(***************************************************************************)
EXTENDS Units, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)

Empty == [has |-> FALSE, val |-> <<>>, at |-> 0]
Is(e, c) == \E i \in 1..Len(e.exc) : e.exc[i] = c
Upd(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Slot(st, c) == IF c \in DOMAIN st.cache THEN st.cache[c] ELSE Empty
Start == [cache |-> <<>>, now |-> 0, ct |-> 60, fail |-> {}]

ResultOk(e, rate) == IF e.kind \in {"to", "toc"} THEN e.fmt /\ IsFloorOf(e.res, e.amt, 0, rate)
                     ELSE e.fmt /\ IsQuote(e.res, Decimals(e.cur), e.amt, rate)

CallStep(st, e) ==
    LET n == Len(e.log)
        cached == e.kind \in {"toc", "fromc", "balance"}
        s == Slot(st, e.cur)
        stale == ~s.has \/ st.now - s.at > st.ct
        mayUse == cached /\ ~stale
        ok(i) == e.up[e.log[i]]
        good == n > 0 /\ ok(n)
        rate == IF good THEN e.quotes[e.log[n]] ELSE <<>>
        allDown == \A p \in DOMAIN e.up : ~e.up[p]
        bad == {c \in {"needless-fetch", "not-fetched", "foreign-provider", "twice", "asked-after-answer", "gave-up", "wrong-error", "wrong-value", "stale-value"} :
            CASE c = "needless-fetch" -> mayUse /\ n > 0
              [] c = "not-fetched" -> ~mayUse /\ n = 0
              [] c = "foreign-provider" -> \E i \in 1..n : e.log[i] \notin DOMAIN e.up
              [] c = "twice" -> \E i, j \in 1..n : i < j /\ e.log[i] = e.log[j]
              [] c = "asked-after-answer" -> \E i \in 1..(n-1) : e.log[i] \in DOMAIN e.up /\ ok(i)
              [] c = "gave-up" -> e.exc # <<>> /\ (mayUse \/ ~allDown)
              [] c = "wrong-error" -> e.exc # <<>> /\ ~Is(e, "ConnectionError")
              [] c = "stale-value" -> e.exc = <<>> /\ ~mayUse /\ allDown
              [] c = "wrong-value" -> e.exc = <<>> /\
                     IF mayUse THEN ~ResultOk(e, s.val) ELSE good /\ ~ResultOk(e, rate)}
        safe == IF "foreign-provider" \in bad THEN {"foreign-provider"} ELSE bad
    IN  [st EXCEPT !.fail = @ \cup safe,
                   !.cache = IF cached /\ ~mayUse /\ n > 0 /\ safe \cap {"foreign-provider"} = {} /\ good
                             THEN Upd(@, e.cur, [has |-> TRUE, val |-> rate, at |-> st.now]) ELSE @]
StepOf(st, e) ==
    CASE e.e = "tick" -> [st EXCEPT !.now = @ + e.d]
      [] e.e = "ct" -> [st EXCEPT !.ct = e.t]
      [] e.e = "call" -> IF \E i \in 1..Len(e.log) : e.log[i] \notin DOMAIN e.up
                         THEN [st EXCEPT !.fail = @ \cup {"foreign-provider"}] ELSE CallStep(st, e)
      [] OTHER -> st
Fail(h) == FoldLeft(StepOf, Start, h).fail
TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k].hist))]))
=============================================================================

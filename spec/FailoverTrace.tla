--------------------------- MODULE FailoverTrace ---------------------------
(* Observed queries checked against the failover protocol of Services.tla.  *)
EXTENDS Services, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)

\* r.log    services in the order of their requests (one entry per run of requests to one service)
\* r.failed services that failed this query (faulted, or signalled excess)
\* r.truth  per service, what it holds; r.answer what was returned; r.exc class names of the exception
Is(r, c) == \E i \in 1..Len(r.exc) : r.exc[i] = c
Elem(seq, x) == \E i \in 1..Len(seq) : seq[i] = x

Fail(r) ==
    LET n == Len(r.log)
        conf == Configured(r.op, r.net)
        failedAt(i) == Elem(r.failed, r.log[i])
    IN  {c \in {"foreign-service", "twice", "contacted-after-answer", "gave-up-early", "wrong-error", "wrong-answer", "no-answer"} :
         CASE c = "foreign-service" -> \E i \in 1..n : r.log[i] \notin conf
           [] c = "twice" -> \E i, j \in 1..n : i < j /\ r.log[i] = r.log[j]
           [] c = "contacted-after-answer" -> \E i \in 1..(n-1) : ~failedAt(i)
           [] c = "gave-up-early" -> r.exc # <<>> /\ \E s \in conf : ~Elem(r.log, s) \/ ~Elem(r.failed, s)
           [] c = "wrong-error" -> r.exc # <<>> /\ ~Is(r, "ConnectionError")
           [] c = "no-answer" -> r.exc = <<>> /\ n = 0
           [] c = "wrong-answer" -> r.exc = <<>> /\ n > 0 /\
                 \/ r.log[n] \notin DOMAIN r.truth
                 \/ failedAt(n) /\ ~(Elem(r.excess, r.log[n]) /\ r.answer = r.truth[r.log[n]])
                 \/ ~failedAt(n) /\ r.answer # r.truth[r.log[n]]}

TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k]))]))
=============================================================================

--------------------------- MODULE BroadcastTrace ---------------------------
EXTENDS Services, Tx, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)

Is(r, c) == \E i \in 1..Len(r.exc) : r.exc[i] = c
Elem(seq, x) == \E i \in 1..Len(seq) : seq[i] = x
Answered == {"accept", "reject"} \cup {"s" \o ToString(c) : c \in Statuses}

\* r.log: services submitted to, in order; r.sent: what each submission carried; r.given: what was to be sent
Fail(r) ==
    LET n == Len(r.log)
        conf == Configured("broadcast", r.net)
        kind(s) == IF s \in DOMAIN r.behav THEN r.behav[s] ELSE "none"
        accepted == {i \in 1..n : kind(r.log[i]) = "accept"}
    IN  {c \in {"foreign-service", "twice", "after-acceptance", "gave-up-early", "false-success", "false-failure",
                "wrong-error", "wrong-message", "wrong-payload", "wrong-id"} :
         CASE c = "foreign-service" -> \E i \in 1..n : r.log[i] \notin conf
           [] c = "twice" -> \E i, j \in 1..n : i < j /\ r.log[i] = r.log[j]
           [] c = "after-acceptance" -> \E i \in accepted : i < n
           [] c = "gave-up-early" -> r.exc # <<>> /\ \E s \in conf : ~Elem(r.log, s)
           [] c = "false-success" -> r.exc = <<>> /\ accepted = {}
           [] c = "false-failure" -> r.exc # <<>> /\ accepted # {}
           [] c = "wrong-error" -> r.exc # <<>> /\ ~Is(r, "ConnectionError")
           [] c = "wrong-message" -> r.exc # <<>> /\ accepted = {} /\
                 (IF \E s \in conf : kind(s) \in Answered THEN ~(r.saysfailed /\ ~r.saysunreachable)
                  ELSE ~(r.saysunreachable /\ ~r.saysfailed))
           [] c = "wrong-payload" -> \E i \in 1..Len(r.sent) : r.sent[i] = "" \/ (r.given # "" /\ r.sent[i] # r.given) \/ r.sent[i] # r.sent[1]
           [] c = "wrong-id" -> r.mode = "send" /\ r.exc = <<>> /\ Len(r.sent) > 0 /\
                 LET t == ParseTx(FromHex(r.sent[Len(r.sent)])) IN ~t.ok \/ ToHex(TxId(t)) # r.id}

TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k]))]))
=============================================================================

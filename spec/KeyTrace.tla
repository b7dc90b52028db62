------------------------------ MODULE KeyTrace -------------------------------
(***************************************************************************)
(* Recorded keys judged by Address.tla and the curve primitives (C09).     *)
(* Every form but WIF forgets network and compression: the importing class *)
(* decides the network and the key becomes compressed.                     *)
(***************************************************************************)
EXTENDS Address, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)

\* The state of a key: [secret, net, comp]; a hop through a form.
After(st, f) == IF f = "wif" THEN st ELSE [st EXCEPT !.comp = TRUE]
Facts(st) ==
    LET sec == FromHex(st.secret)
        pub == EcPub(sec, st.comp)
        unc == EcPub(sec, FALSE)
    IN  [secret |-> st.secret, wif |-> WifOf(sec, st.comp, st.net), pub |-> ToHex(pub), point |-> ToHex(Tail(unc)),
         back |-> ToHex(EcPub(sec, TRUE)), backlong |-> ToHex(unc),
         addr |-> PkhAddress(pub, st.net), seg |-> IF st.comp THEN NestedKeyAddress(pub, st.net) ELSE <<>>, net |-> st.net]
KeyFail(x, st) ==
    LET f == Facts(st) IN
    {c \in {"secret", "wif", "public-key", "public-point", "point-back", "address", "segwit-address", "class"} :
      CASE c = "secret" -> x.secret # f.secret
        [] c = "wif" -> x.wif # f.wif
        [] c = "public-key" -> x.pub # f.pub \/ x.pubhex # f.pub
        [] c = "public-point" -> x.point # f.point
        [] c = "point-back" -> x.back # f.back \/ x.backlong # f.backlong
        [] c = "address" -> x.addr # f.addr
        [] c = "segwit-address" -> x.seg # f.seg
        [] c = "class" -> x.net # f.net}

RECURSIVE HopFail(_, _, _)
HopFail(r, i, st) ==
    IF i > Len(r.hops) THEN {}
    ELSE LET h == r.hops[i]  n == After(st, h.form) IN
         (IF h.exc # <<>> THEN {"import-error"} ELSE KeyFail(h.key, n)) \cup HopFail(r, i + 1, n)

\* A text offered as a key.
Version(d) == IF d[1] = 128 THEN "main" ELSE IF d[1] = 239 THEN "test" ELSE "none"
TextFail(t) ==
    LET d == B58CheckDecode(t.codes)
        ok == d.ok /\ d.data # <<>> /\ Version(d.data) # "none"
        sized == ok /\ (Len(d.data) = 33 \/ (Len(d.data) = 34 /\ d.data[34] = 1))
        inrange(s) == \E i \in 1..32 : s[i] # 0     \* not zero; the group order is not reached by the generator
    IN  IF ~ok THEN UNION {IF t.exc[i] = <<>> THEN {"bad-key-accepted"} ELSE {} : i \in 1..Len(t.exc)}
        ELSE IF sized /\ inrange(SubSeq(d.data, 2, 33))
             THEN (IF t.exc[1] # <<>> THEN {"good-key-refused"}
                   ELSE KeyFail(t.key, [secret |-> ToHex(SubSeq(d.data, 2, 33)), comp |-> Len(d.data) = 34, net |-> Version(d.data)]))
             ELSE {}
Fail(r) ==
    LET st == [secret |-> r.secret, net |-> r.net, comp |-> r.comp] IN
    (IF r.exc # <<>> THEN {"import-error"} ELSE KeyFail(r.key, st) \cup HopFail(r, 1, st))
    \cup UNION {TextFail(r.texts[i]) : i \in 1..Len(r.texts)}
TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k]))]))
=============================================================================

----------------------------- MODULE UnitsTrace -----------------------------
(* r: amount n / 10^d of currency cur, converted to satoshi ("to") or n      *)
(* satoshi quoted in cur ("from"); res is the observed result.  A unit of   *)
(* fiat is worth rate / per satoshi.                                          *)
EXTENDS Units, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
Rate(r) == IF r.cur \in Fixed THEN UnitSat(r.cur) ELSE r.rate
TInit == k \in 1..Len(Trace)
Fail(r) == IF r.raised THEN {"raised"}
           ELSE IF ~r.fmt THEN {"not-plain"}
           ELSE IF r.dir = "to" THEN IF IsFloorOf(Mul(r.res, r.per), r.n, r.d, Rate(r)) THEN {} ELSE {"wrong-satoshi"}
           ELSE IF IsQuote(r.res, Decimals(r.cur), Mul(r.n, r.per), Rate(r)) THEN {} ELSE {"wrong-quote"}
TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k]))]))
=============================================================================

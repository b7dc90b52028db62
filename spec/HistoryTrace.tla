---------------------------- MODULE HistoryTrace -----------------------------
(***************************************************************************)
(* Recorded histories judged against History.tla; each payment on its own  *)
(* is judged by Payment.tla as if it were the first.                       *)
(*  r.steps  [pay, fetched, listing, caller, outs, wallet, balance, rec]   *)
(*  r.caller the caller's coins at the start; listing, wallet: sequences   *)
(*  of [id, amt]; outs: the caller's output list as before / after         *)
(***************************************************************************)
EXTENDS PaymentTrace
Sum(cs) == SumBig([i \in 1..Len(cs) |-> cs[i].amt])
Before(r, i) == IF i = 1 THEN r.wallet ELSE r.steps[i-1].wallet
StepFail(r, i) ==
    LET st == r.steps[i] IN
    {c \in {"caller-coins-changed", "outputs-changed", "record-not-listing", "record-changed", "balance-not-sum"} :
      CASE c = "caller-coins-changed" -> st.caller # r.caller
        [] c = "outputs-changed" -> st.outs # st.outs0
        [] c = "record-not-listing" -> st.fetched /\ st.wallet # st.listing
        [] c = "record-changed" -> ~st.fetched /\ st.wallet # Before(r, i)
        [] c = "balance-not-sum" -> st.balance # Sum(st.wallet)}
    \cup (IF ~st.pay THEN {}
          ELSE IF st.want = "foreign" THEN (IF st.rec.exc = <<>> THEN {"foreign-paid"} ELSE {})
          ELSE IF st.want = "down" THEN (IF Has(st.rec.exc, "ConnectionError") THEN {} ELSE {"no-connection-error"})
          ELSE Fail(st.rec))
\* The same request over the same coins, all of them combined, gives the same transaction.
Repeats(r) == {<<i, j>> \in (1..Len(r.steps)) \X (1..Len(r.steps)) :
                 /\ i < j /\ r.steps[i].pay /\ r.steps[j].pay
                 /\ r.steps[i].key # "" /\ r.steps[i].key = r.steps[j].key}
HFail(r) ==
    UNION {StepFail(r, i) : i \in 1..Len(r.steps)}
    \cup {c \in {"repeat-differs"} : \E p \in Repeats(r) : r.steps[p[1]].rec.tx # r.steps[p[2]].rec.tx}
HNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(HFail(Trace[k]))]))
=============================================================================

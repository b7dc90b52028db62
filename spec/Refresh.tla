------------------------------- MODULE Refresh -------------------------------
(***************************************************************************)
(* A wallet and the network's view of its two addresses (C18).  Refreshing *)
(* asks for the legacy address and then (if the wallet has one) for the    *)
(* segwit address; either question may go unanswered.  Contents are        *)
(* abstract: a number identifies which version of an address's listing the *)
(* network (or the wallet) holds.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxSteps, HasSegwit
VARIABLES net, wal, hist, tmp
vars == <<net, wal, hist, tmp>>
Kinds == {"unspents", "transactions"}
Outcomes == IF HasSegwit THEN {"ok", "first-fails", "second-fails", "both-fail"} ELSE {"ok", "first-fails"}
None == [l |-> 0, s |-> 0]

Init == /\ net = [k \in Kinds |-> [l |-> 1, s |-> 1]]
        /\ wal = [k \in Kinds |-> None] /\ hist = <<>> /\ tmp = [busy |-> FALSE, k |-> "unspents", l |-> 0, out |-> "ok"]
\* Something happens on the network.
Change == /\ ~tmp.busy /\ Len(hist) < MaxSteps
          /\ \E k \in Kinds, a \in {"l", "s"} : /\ net[k][a] < 3
                                                /\ net' = [net EXCEPT ![k][a] = @ + 1]
                                                /\ hist' = Append(hist, [act |-> "change", k |-> k, a |-> a, out |-> ""])
          /\ UNCHANGED <<wal, tmp>>
\* Refresh in two questions; nothing is stored before both are answered.
Ask1 == /\ ~tmp.busy /\ Len(hist) < MaxSteps
        /\ \E k \in Kinds, o \in Outcomes, via \in {"get", "balance"} :
             /\ via = "balance" => k = "unspents"
             /\ hist' = Append(hist, [act |-> via, k |-> k, a |-> "", out |-> o])
             /\ tmp' = IF o \in {"first-fails", "both-fail"} THEN tmp ELSE [busy |-> TRUE, k |-> k, l |-> net[k].l, out |-> o]
        /\ UNCHANGED <<net, wal>>
Ask2 == /\ tmp.busy
        /\ tmp' = [tmp EXCEPT !.busy = FALSE]
        /\ IF tmp.out = "second-fails" THEN UNCHANGED wal
           ELSE wal' = [wal EXCEPT ![tmp.k] = [l |-> tmp.l, s |-> IF HasSegwit THEN net[tmp.k].s ELSE 0]]
        /\ UNCHANGED <<net, hist>>
Emit == /\ ~tmp.busy /\ Len(hist) = MaxSteps
        /\ PrintT("SCN " \o ToJson([hist |-> hist]))
        /\ hist' = Append(hist, [act |-> "end", k |-> "", a |-> "", out |-> ""])
        /\ UNCHANGED <<net, wal, tmp>>
Next == Change \/ Ask1 \/ Ask2
GenNext == Next \/ Emit
Spec == Init /\ [][Next]_vars

\* The wallet always holds a snapshot the network really had: never a mixture with an older half.
Consistent == \A k \in Kinds : wal[k] = None \/ (wal[k].l \in 1..net[k].l /\ wal[k].s \in 0..net[k].s /\ (HasSegwit => wal[k].s > 0))
\* A refresh changes both halves to the present or neither.
AllOrNothing == [][\A k \in Kinds : wal[k]' # wal[k] => wal[k]'.l = net[k].l /\ (HasSegwit => wal[k]'.s = net[k].s)]_vars
OthersKept == [][\A k \in Kinds : tmp.k # k => wal[k]' = wal[k]]_vars
=============================================================================

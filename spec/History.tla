------------------------------- MODULE History -------------------------------
(***************************************************************************)
(* One wallet object and one caller over time (C25).  The network's        *)
(* listing changes; the wallet refreshes; payments are created, prepared   *)
(* or sent from coins the caller keeps, from the wallet's own record, or   *)
(* from coins fetched for the purpose, with options that differ from call  *)
(* to call, and some fail.  A payment changes neither the caller's coins   *)
(* nor, unless it fetched, the wallet's record; the balance is always the  *)
(* sum of the recorded coins.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxLen, Multi
VARIABLES listing,   \* version of what the network lists
          wallet,    \* version recorded by the wallet (0: nothing yet)
          caller,    \* what became of the caller's coins: options applied to them
          paid,      \* payments made: [src, ver, opts]
          hist
vars == <<listing, wallet, caller, paid, hist>>
Opts == [rbf : BOOLEAN, combine : BOOLEAN, msg : BOOLEAN, fee : {"rate", "abs", "default"}, req : 1..3, leftover : BOOLEAN]
Outcomes == {"ok", "ok", "short", "foreign"}
Modes == IF Multi THEN {"create", "prepare"} ELSE {"create", "send", "prepare"}
Srcs == {"caller", "own", "fetched", "down"}
Init == listing = 1 /\ wallet = 0 /\ caller = "as given" /\ paid = <<>> /\ hist = <<>>
Room == Len(hist) < MaxLen
Step(x) == hist' = Append(hist, x)
Grow == Room /\ listing' = listing + 1 /\ Step([act |-> "grow"]) /\ UNCHANGED <<wallet, caller, paid>>
Refresh == Room /\ wallet' = listing /\ Step([act |-> "refresh"]) /\ UNCHANGED <<listing, caller, paid>>
Pay == Room /\ \E o \in Opts, w \in Outcomes, m \in Modes, f \in Srcs :
         /\ m = "prepare" => f \in {"caller", "own"}
         /\ f = "own" => wallet # 0
         /\ wallet' = IF f = "fetched" THEN listing ELSE wallet
         /\ paid' = IF w = "ok" /\ f # "down" THEN Append(paid, [src |-> f, ver |-> IF f = "fetched" THEN listing ELSE wallet, opts |-> o]) ELSE paid
         /\ Step([act |-> "pay", opts |-> o, want |-> w, mode |-> m, src |-> f])
         /\ UNCHANGED <<listing, caller>>
Next == Grow \/ Refresh \/ Pay
Emit == Len(hist) = MaxLen /\ PrintT("SCN " \o ToJson([hist |-> hist])) /\ hist' = Append(hist, [act |-> "end"]) /\ UNCHANGED <<listing, wallet, caller, paid>>
GenNext == Next \/ Emit
CallerKept == caller = "as given"
RecordIsAListing == wallet \in 0..listing
OnlyFetchingUpdates == [][wallet' # wallet => Len(hist') > Len(hist) /\ (hist'[Len(hist')].act = "refresh" \/ hist'[Len(hist')].src = "fetched")]_vars
Bound == listing <= 3
View == <<listing, wallet, caller, Len(hist)>>
Spec == Init /\ [][Next]_vars
=============================================================================

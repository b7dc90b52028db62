------------------------------- MODULE Secrecy -------------------------------
(***************************************************************************)
(* What leaves a wallet (C29).  Everything a wallet says to the outside,   *)
(* in requests, results, error texts, logs or its printed form, is a set   *)
(* of terms; an observer of all of it derives what can be derived.  Only   *)
(* an explicit export hands out a secret, and to the caller alone.         *)
(*  terms  [t |-> "addr" | "pub" | "text", k]                              *)
(*         [t |-> "sig", k, d (what is signed), n (nonce)]                 *)
(*         [t |-> "secret", k]                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, MaxLen, Acts
VARIABLES seen,     \* terms the outside has seen
          given,    \* keys exported to the caller
          docs,     \* distinct things signed so far
          hist
vars == <<seen, given, docs, hist>>

\* How each act may end, and what it then shows.
Hows(a) == CASE a = "show" -> {"ok"}
             [] a = "query" -> {"ok", "down", "garbage"}
             [] a = "pay" -> {"ok", "short", "foreign", "badaddr", "badcoin", "nocoins", "badargs"}
             [] a = "send" -> {"ok", "down", "refused"}
             [] a = "prepare" -> {"ok", "short", "badaddr"}
             [] a = "sign" -> {"ok", "badcoin", "garbage"}
             [] a = "data" -> {"ok", "garbage"}
             [] a = "contract" -> {"ok", "refused", "garbage"}
             [] a = "compare" -> {"ok", "garbage"}
             [] a = "node" -> {"ok", "down", "refused"}
             [] a = "export" -> {"ok"}
Signs(a, h) == a \in {"pay", "send", "sign", "data", "node"} /\ h \in {"ok", "refused"}

\* The nonce of a signature is fixed by key and document, differently for each.
Nonce(k, d) == <<k, d>>

RECURSIVE Closure(_, _)
Closure(S, K) ==
    LET sigs == {x \in S : x.t = "sig"}
        twice == {x.k : x \in {y \in sigs : \E z \in sigs : z.k = y.k /\ z.n = y.n /\ z.d # y.d}}
        shared == {x.k : x \in {y \in sigs : \E z \in sigs : z.k \in K /\ z.n = y.n}}
        more == K \cup twice \cup shared
    IN  IF more = K THEN K ELSE Closure(S, more)
Derivable(S) == Closure(S, {x.k : x \in {y \in S : y.t = "secret"}})

Init == seen = {} /\ given = {} /\ docs = 0 /\ hist = <<>>
Do(a, h, k) ==
    /\ hist' = Append(hist, [act |-> a, how |-> h, key |-> k])
    /\ given' = IF a = "export" THEN given \cup {k} ELSE given
    /\ docs' = IF Signs(a, h) THEN docs + 1 ELSE docs
    /\ seen' = seen \cup {[t |-> "addr", k |-> k], [t |-> "text", k |-> k]}
                    \cup (IF Signs(a, h) THEN {[t |-> "sig", k |-> k, d |-> docs + 1, n |-> Nonce(k, docs + 1)], [t |-> "pub", k |-> k]} ELSE {})
Next == Len(hist) < MaxLen /\ \E a \in Acts, k \in Keys : \E h \in Hows(a) : Do(a, h, k)
Emit == Len(hist) = MaxLen /\ PrintT("SCN " \o ToJson([hist |-> hist])) /\ hist' = Append(hist, "end") /\ UNCHANGED <<seen, given, docs>>
GenNext == Next \/ Emit
\* The observer (who is not the caller) never learns a key, exported to the caller or not.
NothingLearnt == Derivable(seen) = {}
\* Even knowing the keys that were exported, it learns no further one.
OthersSafe == Closure(seen, given) = given
=============================================================================

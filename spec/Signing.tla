------------------------------- MODULE Signing ------------------------------
(***************************************************************************)
(* Co-signing and batching (C05, C06).  A transaction has inputs owned by  *)
(* wallets (or by strangers, owner 0); wallets are m-of-n contracts or     *)
(* single keys (m = n = 1).  What an input carries is the slot sequence of *)
(* the partially signed script: signer numbers in key order, followed by   *)
(* placeholders (0) once the script was signed a second time.  Copies of   *)
(* the transaction may be forked at any point and signed on.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json

CONSTANTS Wallets,    \* sequence of [m, n, multi]
          Owners,     \* sequence: owner wallet of each input (0 = stranger)
          MaxSteps, Subsets, Forks
ASSUME \A w \in 1..Len(Wallets) : Wallets[w].m <= Wallets[w].n

VARIABLES versions,   \* every copy ever made: sequence of [slots (per input)]
          hist        \* steps: [base, wallet, key, given, refused]
vars == <<versions, hist>>

NIn == Len(Owners)
Ins == 1..NIn
M(i) == Wallets[Owners[i]].m
N(i) == Wallets[Owners[i]].n
Multi(w) == Wallets[w].multi

Signers(slots) == {slots[j] : j \in 1..Len(slots)} \ {0}
InKeyOrder(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Complete(slots, i) == Cardinality(Signers(slots)) >= M(i)

\* CHECKMULTISIG on the slots: exactly m items, matching keys in order.
RECURSIVE Match(_, _, _)
Match(sigs, key, n) ==
    IF sigs = <<>> THEN TRUE
    ELSE IF key > n THEN FALSE
    ELSE IF Head(sigs) = key THEN Match(Tail(sigs), key + 1, n)
    ELSE Match(sigs, key + 1, n)
Accepted(slots, i) == Owners[i] # 0 /\ Len(slots) = M(i) /\ Match(slots, 1, N(i))

\* The effect of key k of the owner signing an input.
AddSig(slots, i, k) ==
    LET S == Signers(slots) \cup {k}
        pad == IF slots = <<>> THEN 0 ELSE M(i) - Cardinality(S)
    IN  InKeyOrder(S) \o [j \in 1..pad |-> 0]

Targets(w, C) == {i \in C : Owners[i] = w}
Refused(v, w, C) == Multi(w) /\ \E i \in Targets(w, C) : Complete(v[i], i)
Signed(v, w, k, C) == [i \in Ins |-> IF i \in Targets(w, C) THEN (IF Multi(w) THEN AddSig(v[i], i, k) ELSE <<k>>) ELSE v[i]]

Init == versions = <<[i \in Ins |-> <<>>]>> /\ hist = <<>>

Given == IF Subsets THEN SUBSET Ins \ {{}} ELSE {Ins}
Bases == IF Forks THEN 1..Len(versions) ELSE {Len(versions)}
Sign == /\ Len(hist) < MaxSteps
        /\ \E b \in Bases, w \in 1..Len(Wallets), C \in Given : \E k \in 1..Wallets[w].n :
             LET v == versions[b] IN
             /\ hist' = Append(hist, [base |-> b, w |-> w, key |-> k, given |-> SetToSortSeq(C, LAMBDA x, y : x < y)])
             /\ versions' = Append(versions, IF Refused(v, w, C) THEN v ELSE Signed(v, w, k, C))
Emit == /\ Len(hist) = MaxSteps
        /\ PrintT("SCN " \o ToJson([hist |-> hist]))
        /\ hist' = Append(hist, [base |-> 0, w |-> 0, key |-> 0, given |-> <<>>])
        /\ UNCHANGED versions
Next == Sign
GenNext == Sign \/ Emit

\* ------------------------------------------------------------- properties
ValidIffEnough == \A b \in 1..Len(versions), i \in Ins :
    Owners[i] # 0 => (Accepted(versions[b][i], i) <=> Cardinality(Signers(versions[b][i])) >= M(i))
NeverTooMany == \A b \in 1..Len(versions), i \in Ins : Owners[i] # 0 => Cardinality(Signers(versions[b][i])) <= M(i)
\* Same signers, complete: same content, whatever the order they signed in.
OrderIndependent == \A a, b \in 1..Len(versions), i \in Ins :
    Owners[i] # 0 /\ Signers(versions[a][i]) = Signers(versions[b][i]) /\ Complete(versions[a][i], i)
       => versions[a][i] = versions[b][i]
StrangersUntouched == \A b \in 1..Len(versions), i \in Ins : Owners[i] = 0 => versions[b][i] = <<>>
NothingDropped == \A s \in 1..Len(hist) : hist[s].base # 0 =>
    \A i \in Ins : Signers(versions[hist[s].base][i]) \subseteq Signers(versions[s+1][i])
Safe == ValidIffEnough /\ NeverTooMany /\ OrderIndependent /\ StrangersUntouched /\ NothingDropped
=============================================================================

------------------------------ MODULE FreshKeys ------------------------------
(***************************************************************************)
(* New keys (C27).  Processes have a seedable pseudo-random state, copied  *)
(* by forking, and may seed it; keys come from the system's entropy, which *)
(* never repeats and is no function of that state.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxProcs, MaxLen, Hows
VARIABLES prng,     \* pseudo-random state of each process
          entropy,  \* draws made from the system so far
          keys,     \* keys made: [proc, val]
          hist
vars == <<prng, entropy, keys, hist>>
Init == prng = <<0>> /\ entropy = 0 /\ keys = <<>> /\ hist = <<>>
Room == Len(hist) < MaxLen
Step(x) == hist' = Append(hist, x)
Seed == Room /\ \E p \in 1..Len(prng), s \in {1, 2} : prng' = [prng EXCEPT ![p] = s] /\ Step([act |-> "seed", p |-> p, how |-> "", s |-> s]) /\ UNCHANGED <<entropy, keys>>
Fork == Room /\ Len(prng) < MaxProcs /\ \E p \in 1..Len(prng) : prng' = Append(prng, prng[p]) /\ Step([act |-> "fork", p |-> p, how |-> "", s |-> 0]) /\ UNCHANGED <<entropy, keys>>
New == Room /\ \E p \in 1..Len(prng), h \in Hows :
         /\ entropy' = entropy + 1 /\ keys' = Append(keys, [proc |-> p, val |-> entropy + 1])
         /\ Step([act |-> "new", p |-> p, how |-> h, s |-> 0]) /\ UNCHANGED prng
Next == Seed \/ Fork \/ New
Emit == Len(hist) = MaxLen /\ PrintT("SCN " \o ToJson([hist |-> hist])) /\ hist' = Append(hist, "end") /\ UNCHANGED <<prng, entropy, keys>>
GenNext == Next \/ Emit
NeverTwice == \A i, j \in 1..Len(keys) : i # j => keys[i].val # keys[j].val
=============================================================================

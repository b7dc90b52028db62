------------------------------ MODULE Selection ------------------------------
(***************************************************************************)
(* Coin selection as a nondeterministic state machine (C02, C03): a        *)
(* randomised branch-and-bound search for an exact match, then a random    *)
(* draw.  Every random choice of the implementation is a choice here.      *)
(* Sizes are abstract: a coin is [amt, cost], outputs cost Overhead, a     *)
(* change output costs ChangeCost, a match may exceed its target by        *)
(* Window.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Amounts, Costs, Targets, MaxN, Overhead, ChangeCost, Window

VARIABLES coins, target, combine, absolute,   \* the request
          phase, stack, sel, left             \* the search
vars == <<coins, target, combine, absolute, phase, stack, sel, left>>

Idx == 1..Len(coins)
Sum(S, f(_)) == FoldLeft(LAMBDA a, i : a + f(i), 0, SetToSeq(S))
Amt(S)  == LET f(i) == coins[i].amt IN Sum(S, f)
Cost(S) == LET f(i) == coins[i].cost IN Sum(S, f)
Eff(S)  == Amt(S) - Cost(S)
Goal    == target + Overhead
InWindow(S) == Eff(S) >= Goal /\ Eff(S) <= Goal + Window
Fee(S) == IF absolute THEN Overhead ELSE Overhead + ChangeCost + Cost(S)
Remaining(S) == Amt(S) - target - Fee(S)
Ran(s) == {s[i] : i \in 1..Len(s)}

Init == /\ \E n \in 1..MaxN : coins \in [1..n -> [amt : Amounts, cost : Costs]]
        /\ \A i, j \in Idx : i < j => coins[i].amt >= coins[j].amt      \* searched from the largest
        /\ target \in Targets /\ combine \in BOOLEAN /\ absolute \in BOOLEAN
        /\ phase = IF combine \/ absolute THEN "draw" ELSE "search"
        /\ stack = <<[d |-> 1, s |-> <<>>]>> /\ sel = <<>> /\ left = 1..Len(coins)

Req == <<coins, target, combine, absolute>>
\* One visit of the search tree; the order in which the two branches are explored is random.
Visit == /\ phase = "search" /\ stack # <<>>
         /\ LET top == Head(stack) e == Eff(Ran(top.s)) IN
            IF e > Goal + Window \/ (e < Goal /\ top.d > Len(coins))
            THEN stack' = Tail(stack) /\ UNCHANGED <<phase, sel, left>>
            ELSE IF e >= Goal
            THEN sel' = top.s /\ phase' = "done" /\ stack' = <<>> /\ UNCHANGED left
            ELSE LET inc == [d |-> top.d + 1, s |-> Append(top.s, top.d)]
                     omi == [d |-> top.d + 1, s |-> top.s]
                 IN  /\ stack' \in {<<inc, omi>> \o Tail(stack), <<omi, inc>> \o Tail(stack)}
                     /\ UNCHANGED <<phase, sel, left>>
         /\ UNCHANGED Req
NoMatch == /\ phase = "search" /\ stack = <<>> /\ phase' = "draw" /\ UNCHANGED <<Req, stack, sel, left>>
\* Random draw (in the offered order when combining).
Draw == /\ phase = "draw" /\ left # {}
        /\ \E i \in left :
             /\ combine => \A j \in left : i <= j
             /\ left' = left \ {i}
             /\ sel' = Append(sel, i)
             /\ phase' = IF Remaining(Ran(sel')) >= 0 /\ (combine => left' = {}) THEN "done"
                         ELSE IF left' = {} THEN "insufficient" ELSE "draw"
        /\ UNCHANGED <<Req, stack>>
Next == Visit \/ NoMatch \/ Draw
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Economic == {i \in Idx : coins[i].amt > coins[i].cost}
MatchExists == ~combine /\ ~absolute /\ \E S \in SUBSET Economic : S # {} /\ InWindow(S)
Funded(S) == S # {} /\ (Remaining(S) >= 0 \/ (~combine /\ ~absolute /\ InWindow(S)))

OnceEach == Cardinality(Ran(sel)) = Len(sel) /\ Ran(sel) \subseteq Idx
Done == phase = "done"
SelectionFunds == Done => Funded(Ran(sel))
UsesMatch == Done /\ MatchExists => InWindow(Ran(sel))
StopsInTime == Done /\ ~combine /\ ~(~absolute /\ InWindow(Ran(sel))) =>
                 \A k \in 1..(Len(sel)-1) : Remaining(Ran(SubSeq(sel, 1, k))) < 0
AllWhenCombining == Done /\ combine => sel = [i \in Idx |-> i]
HonestShortage == phase = "insufficient" => Remaining(Idx) < 0 /\ ~MatchExists
ShortageReported == (\A S \in SUBSET Idx : ~Funded(S)) => ~Done
Terminates == <>(phase \in {"done", "insufficient"})
=============================================================================

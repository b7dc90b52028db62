------------------------------ MODULE UnitsGen ------------------------------
(* Conversion histories: operations that ran earlier, then one conversion.    *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS NDigits, Preludes
VARIABLES st, size, digits, dec, cur, dir, form, pre, api
vars == <<st, size, digits, dec, cur, dir, form, pre, api>>

Digit == {0, 1, 4, 5, 9}
Init == /\ size \in 1..NDigits /\ st = "start" /\ digits = <<>> /\ dec = 0 /\ pre = <<>>
        /\ cur \in {"satoshi", "ubtc", "mbtc", "btc"} /\ dir \in {"to", "from"}
        /\ form \in {"int", "str", "dec", "float", "exp", "pad"} /\ api \in {"plain", "cached", "wallet"}
Type == /\ st = "start" /\ Len(digits) < size
        /\ \E d \in Digit : digits' = Append(digits, d)
        /\ UNCHANGED <<size, st, dec, cur, dir, form, pre, api>>
Earlier == /\ st = "start" /\ Len(pre) < 2 /\ \E p \in Preludes : pre' = Append(pre, p)
           /\ UNCHANGED <<size, st, digits, dec, cur, dir, form, api>>
Point == /\ st = "start" /\ Len(digits) = size
         /\ dec' \in 0..Len(digits) + 1
         /\ st' = "ready" /\ UNCHANGED <<size, digits, cur, dir, form, pre, api>>
Emit == /\ st = "ready" /\ st' = "done"
        /\ PrintT("SCN " \o ToJson([digits |-> digits, dec |-> dec, cur |-> cur, dir |-> dir, form |-> form, pre |-> pre, api |-> api]))
        /\ UNCHANGED <<size, digits, dec, cur, dir, form, pre, api>>
Next == Type \/ Earlier \/ Point \/ Emit
=============================================================================

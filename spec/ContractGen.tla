----------------------------- MODULE ContractGen -----------------------------
(* Multisig contracts as a co-signer enters them (C23).                    *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxN
VARIABLES s, phase
Init == phase = "n" /\ s = [net |-> "main", n |-> 0, m |-> 0, comps |-> <<>>, as |-> "list", enc |-> "bytes", me |-> 1, order |-> 0, flaw |-> "none", salt |-> 0]
Size == phase = "n" /\ phase' = "keys" /\ \E n \in 1..MaxN, net \in {"main", "test"} : s' = [s EXCEPT !.n = n, !.net = net]
Keys == /\ phase = "keys"
        /\ \E p \in {"c", "u", "m"}, sl \in 0..9 : s' = [s EXCEPT !.comps = [i \in 1..s.n |-> p = "c" \/ (p = "m" /\ (i * 7 + sl) % 3 # 0)], !.salt = sl]
        /\ phase' = "m"
Thresh == phase = "m" /\ phase' = "form" /\ \E m \in 0..(s.n + 1) : s' = [s EXCEPT !.m = m]
Form == /\ phase = "form" /\ phase' = "emit"
        /\ \E a \in {"list", "set"}, e \in {"bytes", "hex", "both", "upper", "mixed"}, me \in 1..s.n, o \in 0..3,
              f \in {"none", "none", "none", "stranger", "short", "long", "empty", "othernet", "tuple", "twice"} :
             /\ s' = [s EXCEPT !.as = a, !.enc = e, !.me = me, !.order = o, !.flaw = f]
Emit == phase = "emit" /\ phase' = "end" /\ s' = s /\ PrintT("SCN " \o ToJson(s))
Next == Size \/ Keys \/ Thresh \/ Form \/ Emit
=============================================================================

------------------------------- MODULE AddrGen -------------------------------
(***************************************************************************)
(* Address strings (C08): valid addresses of every form, and what can      *)
(* happen to them on the way: a corruption, or a string that was never an  *)
(* address.                                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Payloads, Positions
VARIABLES s, phase
Init == phase = "form" /\ s = [form |-> "", net |-> "", ver |-> 0, len |-> 20, pay |-> 0, damage |-> "none", pos |-> 0, arg |-> 0]
Base == \E n \in {"main", "test"}, f \in {"pkh", "sh"}, p \in Payloads : s' = [s EXCEPT !.form = f, !.net = n, !.pay = p] /\ phase' = "damage"
Bech == \E n \in {"main", "test"}, v \in 0..16 : s' = [s EXCEPT !.form = "bech", !.net = n, !.ver = v] /\ phase' = "prog"
Prog == /\ phase = "prog" /\ phase' = "damage"
        /\ \E l \in {2, 3, 5, 16, 20, 21, 25, 32, 33, 39, 40}, p \in Payloads :
            /\ s.ver = 0 => l \in {20, 32}
            /\ s' = [s EXCEPT !.len = l, !.pay = p]
Form == (phase = "form" /\ (Base \/ Bech)) \/ Prog
Common == {"none", "subst", "delete", "insert", "swap", "truncate", "double", "space-before", "space-after", "newline", "nonascii", "fullwidth", "nul", "case", "reverse"}
B58Damage == {"version", "paylen", "nochecksum", "zero-char", "lead-one", "wif", "checksum-flip"}
BechDamage == {"upper", "mixed", "onechar-case", "bech32m", "hrp", "version17", "proglen", "v0len", "padbits", "padgroup", "noprog", "sep-missing", "extra-sep", "badchar", "long", "as-main", "q-insert"}
Damage == /\ phase = "damage"
          /\ \E d \in Common \cup (IF s.form = "bech" THEN BechDamage ELSE B58Damage) : s' = [s EXCEPT !.damage = d]
          /\ phase' = "pos"
Pos == phase = "pos" /\ phase' = "arg" /\ \E p \in Positions : s' = [s EXCEPT !.pos = p]
Arg == phase = "arg" /\ phase' = "emit" /\ \E a \in 0..63 : s' = [s EXCEPT !.arg = a]
Emit == phase = "emit" /\ phase' = "end" /\ s' = s /\ PrintT("SCN " \o ToJson(s))
Next == Form \/ Damage \/ Pos \/ Arg \/ Emit
\* Every valid address shape, undamaged.
ValidNext == \/ Form
             \/ phase = "damage" /\ phase' = "emit" /\ s' = s
             \/ Emit
=============================================================================

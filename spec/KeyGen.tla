------------------------------- MODULE KeyGen --------------------------------
(***************************************************************************)
(* Keys (C09): secrets by byte pattern, network, compression; a history of *)
(* exports and imports starting from the secret; and damaged key texts.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Patterns, MaxHops
VARIABLES s, phase
Forms == {"wif", "hex", "bytes", "int", "der", "pem"}
Init == phase = "key" /\ s = [pat |-> "", arg |-> 0, net |-> "", comp |-> TRUE, hops |-> <<>>, damage |-> "none", pos |-> 0, sub |-> 0]
Key == /\ phase = "key" /\ phase' = "arg"
       /\ \E p \in Patterns, n \in {"main", "test"}, c \in BOOLEAN : s' = [s EXCEPT !.pat = p, !.net = n, !.comp = c]
Arg == /\ phase = "arg" /\ phase' = "hop" /\ \E a \in 0..31 : s' = [s EXCEPT !.arg = a]
Hop == /\ phase = "hop" /\ Len(s.hops) < MaxHops
       /\ \E f \in Forms : s' = [s EXCEPT !.hops = Append(@, f)]
       /\ phase' \in {"hop", "damage"}
Stop == phase = "hop" /\ Len(s.hops) = MaxHops /\ phase' = "damage" /\ s' = s
Damage == /\ phase = "damage" /\ phase' = "pos"
          /\ \E d \in {"none", "none", "subst", "delete", "insert", "swap", "case", "badchar", "truncate", "checksum", "version", "address", "suffix", "pad"} : s' = [s EXCEPT !.damage = d]
Pos == phase = "pos" /\ phase' = "sub" /\ \E p \in 0..51 : s' = [s EXCEPT !.pos = p]
Sub == phase = "sub" /\ phase' = "emit" /\ \E p \in 0..57 : s' = [s EXCEPT !.sub = p]
Emit == phase = "emit" /\ phase' = "end" /\ s' = s /\ PrintT("SCN " \o ToJson(s))
Next == Key \/ Arg \/ Hop \/ Stop \/ Damage \/ Pos \/ Sub \/ Emit
=============================================================================

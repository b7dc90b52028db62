------------------------------ MODULE VanityGen ------------------------------
(***************************************************************************)
(* Searches to run: prefix, number of workers as asked for, and where the  *)
(* schedule is stretched - which worker (or the parent) pauses, and before *)
(* which of Vanity.tla's steps.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Prefixes, Cores, Pauses
VARIABLES s, phase
Init == phase = "what" /\ s = [prefix |-> "", cores |-> "1", who |-> 0, at |-> "none", cli |-> FALSE]
What == phase = "what" /\ phase' = "how" /\ \E p \in Prefixes : s' = [s EXCEPT !.prefix = p]
How == phase = "how" /\ phase' = "pause" /\ \E c \in Cores, b \in BOOLEAN : s' = [s EXCEPT !.cores = c, !.cli = b]
Pause == phase = "pause" /\ phase' = "emit" /\ \E a \in Pauses, w \in {0, 1, 2} : (a = "none" => w = 0) /\ s' = [s EXCEPT !.at = a, !.who = w]
Emit == phase = "emit" /\ phase' = "end" /\ s' = s /\ PrintT("SCN " \o ToJson(s))
Next == What \/ How \/ Pause \/ Emit
=============================================================================

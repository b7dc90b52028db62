-------------------------------- MODULE NetSep -------------------------------
(***************************************************************************)
(* Keeping the networks apart (C10): a wallet of one network, addresses of *)
(* either network as destinations and change, and operations that contact  *)
(* services.  Payment goes through check, sign, send; a foreign address    *)
(* stops it at the check.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxOuts
VARIABLES s, phase, signed, sent, contacted
vars == <<s, phase, signed, sent, contacted>>
Nets == {"main", "test"}
Kinds == {"p2pkh", "p2sh", "p2wpkh", "p2wsh", "v1", "BECH"}
Other(n) == IF n = "main" THEN "test" ELSE "main"
Init == /\ phase = "start" /\ signed = FALSE /\ sent = FALSE /\ contacted = {}
        /\ s = [cls |-> "key", net |-> "main", comp |-> TRUE, op |-> "", outs |-> <<>>, change |-> [net |-> "none", kind |-> "p2pkh"], surplus |-> TRUE, combine |-> TRUE, src |-> "supplied"]
Start == /\ phase = "start" /\ phase' = "outs"
         /\ \E c \in {"key", "multi"}, n \in Nets, m \in BOOLEAN, o \in {"create", "send", "prepare"} :
              /\ c = "multi" => o # "send"
              /\ s' = [s EXCEPT !.cls = c, !.net = n, !.comp = m, !.op = o]
         /\ UNCHANGED <<signed, sent, contacted>>
AddOut == /\ phase = "outs" /\ Len(s.outs) < MaxOuts
          /\ \E n \in Nets, k \in Kinds : s' = [s EXCEPT !.outs = Append(@, [net |-> n, kind |-> k])]
          /\ phase' \in {"outs", "change"}
          /\ UNCHANGED <<signed, sent, contacted>>
Done == phase = "outs" /\ s.outs # <<>> /\ phase' = "change" /\ UNCHANGED <<s, signed, sent, contacted>>
Change == /\ phase = "change" /\ phase' = "fetch"
          /\ \E n \in Nets \cup {"none"}, k \in Kinds, x, cb \in BOOLEAN, f \in {"supplied", "fetched"} :
                /\ n = "none" => k = "p2pkh"
                /\ s' = [s EXCEPT !.change = [net |-> n, kind |-> k], !.surplus = x, !.combine = cb, !.src = f]
          /\ UNCHANGED <<signed, sent, contacted>>
Foreign == \/ \E i \in 1..Len(s.outs) : s.outs[i].net # s.net
           \/ s.surplus /\ s.change.net = Other(s.net)
Fetch == /\ phase = "fetch" /\ phase' = "check"
         /\ contacted' = (IF s.src = "fetched" THEN {s.net} ELSE {}) /\ UNCHANGED <<s, signed, sent>>
Check == /\ phase = "check" /\ phase' = IF Foreign THEN "refused" ELSE "sign"
         /\ UNCHANGED <<s, signed, sent, contacted>>
Sign == /\ phase = "sign" /\ phase' = IF s.op = "send" THEN "send" ELSE "end"
        /\ signed' = (s.op # "prepare") /\ UNCHANGED <<s, sent, contacted>>
Send == /\ phase = "send" /\ phase' = "end" /\ sent' = TRUE /\ contacted' = contacted \cup {s.net} /\ UNCHANGED <<s, signed>>
Emit == /\ phase \in {"end", "refused"} /\ phase' = "stop" /\ PrintT("SCN " \o ToJson(s)) /\ UNCHANGED <<s, signed, sent, contacted>>
Next == Start \/ AddOut \/ Done \/ Change \/ Fetch \/ Check \/ Sign \/ Send
GenNext == Next \/ Emit
NeverForeign == (signed \/ sent) => ~Foreign
OwnEndpoints == contacted \subseteq {s.net}
=============================================================================

--------------------------------- MODULE Node --------------------------------
(***************************************************************************)
(* Which endpoint answers an operation (C22): the web services until a     *)
(* node is connected for the network, that node alone afterwards.  The     *)
(* last node connected for a network is the one used.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxSteps, NodeIds, Ops, Moods, Calls
VARIABLES conn, hist, asked
vars == <<conn, hist, asked>>
Nets == {"main", "test"}
Init == conn = [n \in Nets |-> "web"] /\ hist = <<>> /\ asked = {}
Connect == /\ Len(hist) < MaxSteps
           /\ \E n \in Nets, d \in NodeIds : /\ conn' = [conn EXCEPT ![n] = d]
                                             /\ hist' = Append(hist, [act |-> "connect", net |-> n, node |-> d, op |-> "", mood |-> ""])
           /\ UNCHANGED asked
Use == /\ Len(hist) < MaxSteps
       /\ \E n \in Nets, o \in Ops, m \in Moods :
            /\ hist' = Append(hist, [act |-> "use", net |-> n, node |-> conn[n], op |-> o, mood |-> m])
            /\ asked' = asked \cup {<<n, conn[n]>>}
       /\ UNCHANGED conn
\* The object returned by connecting keeps giving direct access to its own node.
Direct == /\ Len(hist) < MaxSteps
          /\ \E i \in 1..Len(hist), c \in Calls, m \in Moods :
               /\ hist[i].act = "connect"
               /\ hist' = Append(hist, [act |-> "direct", net |-> hist[i].net, node |-> hist[i].node, op |-> c, mood |-> m])
          /\ UNCHANGED <<conn, asked>>
Emit == /\ Len(hist) = MaxSteps /\ PrintT("SCN " \o ToJson([hist |-> hist]))
        /\ hist' = Append(hist, [act |-> "end", net |-> "", node |-> "", op |-> "", mood |-> ""]) /\ UNCHANGED <<conn, asked>>
Next == Connect \/ Use \/ Direct
GenNext == Next \/ Emit
Connected(n) == {hist[i].node : i \in {j \in 1..Len(hist) : hist[j].act = "connect" /\ hist[j].net = n}}
OnlyOwnNodes == \A a \in asked : a[2] = "web" \/ a[2] \in Connected(a[1])
Unaffected == \A n \in Nets : Connected(n) = {} => conn[n] = "web"
Spec == Init /\ [][Next]_vars
NoReturn == [][\A n \in Nets : conn[n] # "web" => conn'[n] # "web"]_vars
=============================================================================

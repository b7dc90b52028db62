------------------------------ MODULE PagingGen ------------------------------
(* Listings of every interesting size, with and without a failing request.  *)
EXTENDS Services, TLC, Json

CONSTANTS Sizes, FaultAt,
          Huge,         \* a size no caller expects
          Codes         \* error statuses tried at every request of some sizes
VARIABLES scn, done
Ops == {"transactions", "unspents"}
Init == /\ done = FALSE
        /\ scn \in {[op |-> o, net |-> n, svc |-> s, size |-> z, unconf |-> u, fault |-> f, code |-> c] :
                     o \in Ops, n \in Nets, s \in {"Blockchair", "Blockstream", "Bitcore", "Smartbit", "Blockchain"},
                     z \in Sizes \cup {Huge}, u \in {0, 1, 3, 49, 50, 51}, f \in FaultAt, c \in Codes \cup {503}}
        /\ scn.svc \in Configured(scn.op, scn.net)
        /\ scn.unconf <= scn.size
        /\ scn.unconf > 3 => scn.op = "transactions" /\ scn.svc = "Blockstream"
        /\ scn.fault # 0 => scn.unconf = 1
        /\ scn.size = Huge => scn.unconf = 0
        /\ scn.code # 503 =>
             /\ scn.fault # 0 /\ scn.size \in {26, 51, 101, 1001, 2001}
             /\ scn.code \notin (IF scn.fault = 1 THEN SaysNothing(scn.op, scn.svc, scn.net) ELSE SaysNothingLate(scn.op, scn.svc, scn.net))
GenNext == ~done /\ done' = TRUE /\ UNCHANGED scn /\ PrintT("SCN " \o ToJson(scn))
=============================================================================

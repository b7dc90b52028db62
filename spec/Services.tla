------------------------------ MODULE Services ------------------------------
(***************************************************************************)
(* Which web services serve which operation on which network, and the      *)
(* failover protocol: one query is a run of Try steps, each contacting a   *)
(* service not contacted before, until one answers or all have failed.     *)
(* Broadcasting is the same protocol with accept/reject in place of        *)
(* answer/failure.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Nets == {"main", "test"}
Queries == {"balance", "transactions", "txbyid", "unspents"}

Configured(op, net) ==
    CASE op = "balance" /\ net = "main" -> {"Blockchair", "Blockstream", "Bitcore", "Smartbit", "Blockchain"}
      [] op = "balance" /\ net = "test" -> {"Blockchair", "Blockstream", "Bitcore", "Smartbit"}
      [] op \in {"transactions", "txbyid"} /\ net = "main" -> {"Blockchair", "Blockstream", "Smartbit", "Blockchain"}
      [] op \in {"transactions", "txbyid"} /\ net = "test" -> {"Blockchair", "Blockstream", "Smartbit"}
      [] op = "unspents" /\ net = "main" -> {"Blockchair", "Blockstream", "Bitcore", "Smartbit", "Blockchain"}
      [] op = "unspents" /\ net = "test" -> {"Blockchair", "Blockstream", "Bitcore", "Smartbit"}
      [] op = "broadcast" /\ net = "main" -> {"Blockchair", "Blockstream", "Bitcore", "Smartbit", "Blockchain"}
      [] op = "broadcast" /\ net = "test" -> {"Blockchair", "Blockstream", "Bitcore", "Smartbit"}

\* Can the service admit that it cannot list everything?
CanExcess(op, s) == \/ op = "transactions" /\ s = "Blockstream"
                    \/ op = "unspents" /\ s \in {"Blockstream", "Blockchain"}
\* Does answering take this service more than one request (so that a later page can fail)?
MultiRequest(op, s) == \/ op = "transactions" /\ s \in {"Blockchair", "Blockstream", "Blockchain"}
                       \/ op = "unspents" /\ s \in {"Blockchair", "Blockstream", "Bitcore"}
\* Every other error status a web service or what stands in front of it may answer with is a failure.
Statuses == {400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 412, 413, 414, 415, 417, 418, 421, 422, 423, 425, 426, 428, 429, 430, 431, 444, 451, 495, 498, 499, 500, 501, 502, 503, 504, 505, 507, 508, 511, 520, 521, 522, 523, 524, 525, 526, 527, 529, 530, 598, 599}
\* The statuses by which a service says that nothing was found.
SaysNothing(op, s, net) ==
    CASE op \in {"transactions", "txbyid", "unspents"} /\ s = "Blockchair" -> {404}
      [] op = "transactions" /\ s = "Blockstream" -> {400}
      [] op = "txbyid" /\ s = "Blockstream" -> {404}
      [] op = "unspents" /\ s = "Blockstream" /\ net = "test" -> {400}
      [] op = "txbyid" /\ s = "Smartbit" -> {400}
      [] op = "unspents" /\ s = "Blockchain" -> {500}
      [] OTHER -> {}
\* A later page is a page of something that was found.
SaysNothingLate(op, s, net) == IF s = "Blockstream" THEN SaysNothing(op, s, net) ELSE {}
=============================================================================

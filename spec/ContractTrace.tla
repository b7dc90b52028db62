---------------------------- MODULE ContractTrace ----------------------------
(* Recorded contracts judged by Contract.tla; every co-signer's copy is one record,
   r.others the addresses the other co-signers obtained.                          *)
EXTENDS Contract, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)
Fail(r) == ContractFail(r) \cup (IF r.exc = <<>> /\ \E i \in 1..Len(r.others) : r.others[i] # r.addr THEN {"cosigners-differ"} ELSE {})
TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k]))]))
=============================================================================

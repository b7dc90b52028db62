---------------------------- MODULE SigningTrace ----------------------------
(***************************************************************************)
(* Recorded signing sessions judged against Signing.tla: the slots of each *)
(* copy are read back from its bytes and every step must be the step the   *)
(* specification takes.                                                    *)
(*  r.ins    [spk, amt8, owner, seg]   (owner 0: a stranger's input)       *)
(*  r.wals   [multi, m, pubs]                                              *)
(*  r.versions  hex of every copy;  r.steps [base, w, key, given, exc]     *)
(***************************************************************************)
EXTENDS Script, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)

Has(seq, x) == \E i \in 1..Len(seq) : seq[i] = x

Items(t, j, in) == IF in.seg THEN t.ins[j].wit ELSE Pushes(t.ins[j].script).stack
\* Which keys have signed input j (multisig), with the signature bytes.
Sigs(t, j, in, w) ==
    LET it == Items(t, j, in)
        rs == IF it = <<>> THEN <<>> ELSE it[Len(it)]
        dg == IF in.seg THEN DigestSegwit(t, j, rs, FromHex(in.amt8)) ELSE DigestLegacy(t, j, rs)
    IN  {<<p, q>> \in (1..Len(w.pubs)) \X (1..(Len(it) - 1)) : it[q] # <<>> /\ SigOk(it[q], FromHex(w.pubs[p]), dg)}
Who(s) == {x[1] : x \in s}
\* A partially signed input must still be a readable script of this contract.
Readable(t, j, in, w) ==
    LET it == Items(t, j, in) IN
    /\ in.seg => t.ins[j].script # <<>>
    /\ ~in.seg => Pushes(t.ins[j].script).ok /\ t.ins[j].wit = <<>>
    /\ it # <<>> /\ it[1] = <<>>

StepFail(r, s) ==
    LET b == ParseTx(FromHex(r.versions[s.base]))
        w == r.wals[s.w]
        T == {j \in 1..Len(r.ins) : r.ins[j].owner = s.w /\ Has(s.given, j)}
        done(j) == LET it == Items(b, j, r.ins[j]) IN it # <<>> /\ Cardinality(Who(Sigs(b, j, r.ins[j], w))) >= w.m
        full == {j \in T : w.multi /\ done(j)}
    IN  IF s.exc # <<>>
        THEN IF full = {} THEN {"sign-error"}
             ELSE IF Has(s.exc, "ValueError") THEN {} ELSE {"refusal-kind"}
        ELSE IF full # {} /\ full = T THEN {"complete-not-refused"}
        ELSE LET a == ParseTx(FromHex(s.after)) IN
             IF ~WellFormed(a) THEN {"malformed"}
             ELSE IF Len(a.ins) # Len(b.ins) THEN {"structure"}
             ELSE {c \in {"structure", "foreign-touched", "single-invalid", "signature-lost", "signature-extra", "signature-missing", "not-valid", "valid-early", "unreadable"} :
                CASE c = "structure" -> a.version # b.version \/ a.lock # b.lock \/ a.outs # b.outs
                          \/ \E j \in 1..Len(b.ins) : a.ins[j].prev # b.ins[j].prev \/ a.ins[j].seq # b.ins[j].seq
                  [] c = "foreign-touched" -> \E j \in 1..Len(b.ins) : j \notin T /\ (a.ins[j].script # b.ins[j].script \/ a.ins[j].wit # b.ins[j].wit)
                  [] c = "single-invalid" -> ~w.multi /\ \E j \in T : ~InputValid(a, j, FromHex(r.ins[j].spk), FromHex(r.ins[j].amt8))
                  [] c = "unreadable" -> w.multi /\ \E j \in T : ~Readable(a, j, r.ins[j], w)
                  [] c = "signature-lost" -> w.multi /\ \E j \in T : LET ia == Items(a, j, r.ins[j])  ib == Items(b, j, r.ins[j]) IN
                          \E x \in Sigs(b, j, r.ins[j], w) : ~Has(ia, ib[x[2]])
                  [] c = "signature-missing" -> w.multi /\ \E j \in T : s.key \notin Who(Sigs(a, j, r.ins[j], w))
                  [] c = "signature-extra" -> w.multi /\ \E j \in T :
                          ~(Who(Sigs(a, j, r.ins[j], w)) \subseteq (Who(Sigs(b, j, r.ins[j], w)) \cup {s.key}))
                  [] c = "not-valid" -> w.multi /\ \E j \in T :
                          Cardinality(Who(Sigs(b, j, r.ins[j], w)) \cup {s.key}) >= w.m /\ ~InputValid(a, j, FromHex(r.ins[j].spk), FromHex(r.ins[j].amt8))
                  [] c = "valid-early" -> w.multi /\ \E j \in T :
                          Cardinality(Who(Sigs(b, j, r.ins[j], w)) \cup {s.key}) < w.m /\ InputValid(a, j, FromHex(r.ins[j].spk), FromHex(r.ins[j].amt8))}

\* Same signers of a complete input: same unlocking data in every copy.
OrderFail(r) ==
    LET V == {v \in 1..Len(r.versions) : r.versions[v] # ""}
        T == [v \in V |-> ParseTx(FromHex(r.versions[v]))]
        J == {j \in 1..Len(r.ins) : r.ins[j].owner # 0}
        S == [v \in V |-> [j \in J |->
                IF ~T[v].ok \/ Len(T[v].ins) # Len(r.ins) \/ Items(T[v], j, r.ins[j]) = <<>> THEN {}
                ELSE Who(Sigs(T[v], j, r.ins[j], r.wals[r.ins[j].owner]))]]
    IN  IF \E a, b \in V, j \in J : a < b /\ r.wals[r.ins[j].owner].multi
             /\ Cardinality(S[a][j]) >= r.wals[r.ins[j].owner].m /\ S[a][j] = S[b][j]
             /\ (T[a].ins[j].script # T[b].ins[j].script \/ T[a].ins[j].wit # T[b].ins[j].wit)
        THEN {"order-dependent"} ELSE {}

Fail(r) == UNION {StepFail(r, r.steps[i]) : i \in 1..Len(r.steps)} \cup (IF r.order THEN OrderFail(r) ELSE {})

TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k]))]))
=============================================================================

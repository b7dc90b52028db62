-------------------------------- MODULE TxGen --------------------------------
(***************************************************************************)
(* Transactions by shape (C07): a state machine assembles version, inputs  *)
(* (script length, witness shape), outputs and lock time.  Also the small  *)
(* universe on which the specification's own parser and serialiser are     *)
(* checked to be inverse (RoundTrip).                                      *)
(***************************************************************************)
EXTENDS Tx, TLC, Json
CONSTANTS MaxIns, MaxOuts, MaxItems, ScriptLens, ItemLens
VARIABLES s, phase
Words == {"one", "two", "zero", "max", "mixed", "marker"}
\* ------------------------------------------------------------- shapes
Init == phase = "ins" /\ s = [version |-> "one", ins |-> <<>>, outs |-> <<>>, lock |-> "zero", segwit |-> FALSE]
Head1 == /\ phase = "ins" /\ s.ins = <<>>
         /\ \E v, l \in Words, sw \in BOOLEAN : s' = [s EXCEPT !.version = v, !.lock = l, !.segwit = sw, !.ins = <<[script |-> 0, seq |-> "max", wit |-> <<>>]>>]
         /\ phase' = "in"
In == /\ phase = "in"
      /\ \E n \in ScriptLens, q \in Words : s' = [s EXCEPT !.ins[Len(s.ins)].script = n, !.ins[Len(s.ins)].seq = q]
      /\ phase' = IF s.segwit THEN "wit" ELSE "more"
Wit == /\ phase = "wit"
       /\ \/ /\ Len(s.ins[Len(s.ins)].wit) < MaxItems
             /\ \E n \in ItemLens : s' = [s EXCEPT !.ins[Len(s.ins)].wit = Append(@, n)]
             /\ phase' \in {"wit", "more"}
          \/ s' = s /\ phase' = "more"
More == /\ phase = "more"
        /\ \/ Len(s.ins) < MaxIns /\ phase' = "in" /\ s' = [s EXCEPT !.ins = Append(@, [script |-> 0, seq |-> "max", wit |-> <<>>])]
           \/ phase' = "out" /\ s' = s
Out == /\ phase = "out"
       /\ \E n \in ScriptLens, a \in {"zero", "one", "max", "mixed", "marker"} : s' = [s EXCEPT !.outs = Append(@, [amt |-> a, script |-> n])]
       /\ phase' \in (IF Len(s.outs) + 1 < MaxOuts THEN {"out", "emit"} ELSE {"emit"})
Emit == /\ phase = "emit" /\ phase' = "end" /\ s' = s
        /\ PrintT("SCN " \o ToJson(s))
Next == Head1 \/ In \/ Wit \/ More \/ Out \/ Emit

\* -------------------------------------------------- parser and serialiser
Bts == {<<>>, <<0>>, <<1, 2>>}
InU(W) == [prev : {Rep(0, 36), Rep(7, 36)}, script : Bts, seq : {<<255, 255, 255, 255>>}, wit : W]
WitU == {<<>>, <<<<>>>>, <<<<9>>, <<>>>>}
OutU == [amt : {Rep(0, 8), Rep(1, 8)}, script : Bts]
RTInit ==
    /\ phase = "rt"
    /\ \E sw \in BOOLEAN, i1 \in InU(WitU), i2 \in {<<>>} \cup {<<x>> : x \in InU({<<>>, <<<<5>>>>})}, o1 \in OutU, o2 \in {<<>>, <<[amt |-> Rep(2, 8), script |-> <<0, 1>>]>>} :
         s = [ok |-> TRUE, version |-> <<1, 0, 0, 0>>, segwit |-> sw, ins |-> <<i1>> \o i2, outs |-> <<o1>> \o o2, lock |-> <<0, 0, 0, 1>>]
RTNext == FALSE /\ UNCHANGED <<s, phase>>
Wanted(t) == \E i \in 1..Len(t.ins) : t.ins[i].wit # <<>>
\* No transaction is another one cut short or followed by more.
PrefixFree == LET b == SerFull(s) IN
              /\ \A n \in 1..5 : ~ParseTx(SubSeq(b, 1, Len(b) - n)).ok
              /\ ~ParseTx(b \o <<0>>).ok
RoundTrip == (s.segwit <=> Wanted(s)) => ParseTx(SerFull(s)) = s /\ WellFormed(s)
=============================================================================

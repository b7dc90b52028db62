------------------------------- MODULE PayGen -------------------------------
(***************************************************************************)
(* Payment requests: a state machine that assembles a wallet, the coins    *)
(* offered, the outputs and the options one step at a time.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS MaxCoins, MaxOuts, Policies, Rates, MsgLens, Modes

VARIABLES s, phase
vars == <<s, phase>>

Nets == {"main", "test"}
CoinVals == {"nil", "unit", "dust", "small", "mid", "big", "huge", "cap", "dup"}
Seqs == {"max", "max1", "max2", "zero", "five"}
OutKinds == {"self", "selfsw", "p2pkh", "p2sh", "p2wpkh", "p2wsh", "v1", "v16", "BECH", "again"}
Units == {"satoshi", "ubtc", "mbtc", "btc", "usd", "jpy", "eur"}
Forms == {"int", "str", "dec", "float"}
OutVals == {"one", "dust", "frac", "mid", "odd", "same"}
Leftovers == {"none", "p2pkh", "p2sh", "p2wpkh", "p2wsh", "self", "selfsw", "first"}
Edges == {"none", "fund-1", "fund", "fund+1", "fund+600"}
Deltas == {"-1", "0", "1", "half", "w-1", "w", "w+1"}

Init == /\ phase = "wallet"
        /\ s = [w |-> [cls |-> "key", net |-> "main", pol |-> 0, comp |-> TRUE], coins |-> <<>>, outs |-> <<>>,
                fee |-> [mode |-> "rate", v |-> 1], combine |-> TRUE, rbf |-> FALSE, leftover |-> "none",
                msg |-> [form |-> "none", len |-> 0], mode |-> "create", src |-> "supplied", edge |-> "none", mask |-> 0, salt |-> 0]

Wallet == /\ phase = "wallet"
          /\ \E net \in Nets :
               \/ \E c \in BOOLEAN : s' = [s EXCEPT !.w = [cls |-> "key", net |-> net, pol |-> 0, comp |-> c]]
               \/ \E p \in 1..Len(Policies) : s' = [s EXCEPT !.w = [cls |-> "multi", net |-> net, pol |-> p, comp |-> Policies[p].comp]]
          /\ phase' = "coins"
HasSegwit == s.w.comp
Coin == /\ phase = "coins" /\ Len(s.coins) < MaxCoins
        /\ \E k \in (IF HasSegwit THEN {"legacy", "segwit"} ELSE {"legacy"}), v \in CoinVals, q \in Seqs, vs \in {"type", "type", "custom"} :
             /\ s' = [s EXCEPT !.coins = Append(@, [kind |-> k, val |-> v, seq |-> q, vs |-> vs])]
             /\ phase' \in {"coins", "outs"} \cup (IF q = "zero" /\ v \in {"mid", "big"} THEN {"fee"} ELSE {})   \* no outputs: everything to the change address
Out == /\ phase = "outs" /\ Len(s.outs) < MaxOuts
       /\ \E k \in OutKinds, u \in Units, f \in Forms, v \in OutVals :
            /\ k = "selfsw" => HasSegwit
            /\ s' = [s EXCEPT !.outs = Append(@, [kind |-> k, unit |-> u, form |-> f, val |-> v])]
       /\ phase' \in {"outs", "fee"}
Stop == \/ phase = "coins" /\ Len(s.coins) = MaxCoins /\ phase' = "outs" /\ UNCHANGED s
        \/ phase = "outs" /\ Len(s.outs) = MaxOuts /\ phase' = "fee" /\ UNCHANGED s
Fee == /\ phase = "fee"
       /\ \/ \E v \in Rates : s' = [s EXCEPT !.fee = [mode |-> "rate", v |-> v]]
          \/ \E v \in {0, 1, 226, 5000, 99999} : s' = [s EXCEPT !.fee = [mode |-> "abs", v |-> v]]
          \/ s' = [s EXCEPT !.fee = [mode |-> "default", v |-> 0]]
       /\ phase' = "opts"
Opts == /\ phase = "opts"
        /\ \E c, r \in BOOLEAN, l \in Leftovers : (l = "selfsw" => HasSegwit) /\ s' = [s EXCEPT !.combine = c, !.rbf = r, !.leftover = l]
        /\ phase' = "msg"
Msg == /\ phase = "msg"
       /\ \/ s' = s
          \/ s' = s
          \/ \E f \in {"ascii", "utf8", "bytes", "blank", "zeros"}, n \in MsgLens : s' = [s EXCEPT !.msg = [form |-> f, len |-> n]]
       /\ phase' = "mode"
Mode == /\ phase = "mode"
        /\ \E m \in Modes, f \in {"supplied", "fetched"} :
             /\ s.w.cls = "multi" => m # "send" /\ ~(m = "prepare" /\ f = "fetched")
             /\ s' = [s EXCEPT !.mode = m, !.src = f]
        /\ phase' = "edge"
Edge == /\ phase = "edge"
        /\ \/ s' = s
           \/ \E e \in Edges : s' = [s EXCEPT !.edge = e]
           \/ /\ s.fee.mode # "abs"
              /\ \E d \in Deltas, m \in 1..(2^Len(s.coins) - 1) : s' = [s EXCEPT !.edge = d, !.mask = m, !.combine = FALSE]
        /\ phase' = "emit"
Emit == /\ phase = "emit" /\ phase' = "end" /\ UNCHANGED s
        /\ PrintT("SCN " \o ToJson(s))
Next == Wallet \/ Coin \/ Out \/ Stop \/ Fee \/ Opts \/ Msg \/ Mode \/ Edge \/ Emit

\* The whole option lattice, for a fixed pair of coins and outputs.
LatticeInit ==
    /\ phase = "emit"
    /\ \E net \in Nets, wi \in 0..(Len(Policies) + 1), m \in Modes, f \in {"supplied", "fetched"}, fe \in {"rate", "abs", "default"},
          c, r \in BOOLEAN, l \in {"none", "p2wpkh"}, g \in {"none", "utf8", "bytes"}, mix \in {"legacy", "both"} :
         LET w == IF wi < 2 THEN [cls |-> "key", net |-> net, pol |-> 0, comp |-> wi = 1]
                  ELSE [cls |-> "multi", net |-> net, pol |-> wi - 1, comp |-> Policies[wi-1].comp]
         IN  /\ w.cls = "multi" => m # "send" /\ ~(m = "prepare" /\ f = "fetched")
             /\ mix = "both" => w.comp
             /\ s = [w |-> w,
                     coins |-> <<[kind |-> "legacy", val |-> "mid", seq |-> IF l = "none" THEN "max" ELSE "max1", vs |-> "type"],
                                 [kind |-> IF mix = "both" THEN "segwit" ELSE "legacy", val |-> "big", seq |-> IF g = "none" THEN "max" ELSE "five", vs |-> "type"]>>,
                     outs |-> <<[kind |-> "p2pkh", unit |-> "btc", form |-> "str", val |-> "odd"], [kind |-> "p2wsh", unit |-> "satoshi", form |-> "int", val |-> "mid"]>>,
                     fee |-> [mode |-> fe, v |-> IF fe = "abs" THEN 5000 ELSE 7], combine |-> c, rbf |-> r, leftover |-> l,
                     msg |-> [form |-> g, len |-> IF g = "none" THEN 0 ELSE 83], mode |-> m, src |-> f, edge |-> "none", mask |-> 0, salt |-> 0]
=============================================================================

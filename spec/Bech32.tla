------------------------------- MODULE Bech32 -------------------------------
(* BIP-173 segregated witness addresses. *)
EXTENDS Bytes, Bitwise

CharsetB32 == Codes("qpzry9x8gf2tvdw0s3jn54khce6mua7l")
IndexB32 == [c \in {CharsetB32[i] : i \in 1..32} |-> (CHOOSE i \in 1..32 : CharsetB32[i] = c) - 1]

Gen == <<996825010, 642813549, 513874426, 1027748829, 705979059>>

PolyStep(chk, v) ==
    LET top == chk \div 33554432
        base == ((chk % 33554432) * 32) ^^ v
        g(c, i) == IF (top \div (2^(i-1))) % 2 = 1 THEN c ^^ Gen[i] ELSE c
    IN  g(g(g(g(g(base, 1), 2), 3), 4), 5)
Polymod(vs) == FoldLeft(LAMBDA c, v : PolyStep(c, v), 1, vs)
HrpExpand(h) == [i \in 1..Len(h) |-> h[i] \div 32] \o <<0>> \o [i \in 1..Len(h) |-> h[i] % 32]

IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
Lower(s) == [i \in 1..Len(s) |-> IF IsUpper(s[i]) THEN s[i] + 32 ELSE s[i]]
LastOne(s) == LET I == {i \in 1..Len(s) : s[i] = 49} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i

BadB32 == [ok |-> FALSE, hrp |-> <<>>, data |-> <<>>]
Bech32Decode(raw) ==
    IF \E i \in 1..Len(raw) : raw[i] < 33 \/ raw[i] > 126 THEN BadB32
    ELSE IF (\E i \in 1..Len(raw) : IsUpper(raw[i])) /\ (\E i \in 1..Len(raw) : IsLower(raw[i])) THEN BadB32
    ELSE LET s == Lower(raw)  p == LastOne(s) IN
         IF p < 2 \/ p + 6 > Len(s) \/ Len(s) > 90 THEN BadB32
         ELSE IF \E i \in (p+1)..Len(s) : s[i] \notin DOMAIN IndexB32 THEN BadB32
         ELSE LET h == SubSeq(s, 1, p - 1)
                  d == [i \in 1..(Len(s) - p) |-> IndexB32[s[p + i]]]
              IN  IF Polymod(HrpExpand(h) \o d) # 1 THEN BadB32
                  ELSE [ok |-> TRUE, hrp |-> h, data |-> SubSeq(d, 1, Len(d) - 6)]

\* 5-bit to 8-bit regrouping without padding: [ok, val]
To8(d) ==
    LET st == FoldLeft(LAMBDA s, v :
                LET acc == s.acc * 32 + v  bits == s.bits + 5 IN
                IF bits >= 8 THEN [r |-> Append(s.r, acc \div (2^(bits-8))), acc |-> acc % (2^(bits-8)), bits |-> bits - 8]
                ELSE [r |-> s.r, acc |-> acc, bits |-> bits],
              [r |-> <<>>, acc |-> 0, bits |-> 0], d)
    IN  [ok |-> st.bits < 5 /\ st.acc = 0, val |-> st.r]

NoWit == [ok |-> FALSE, net |-> "none", ver |-> 0, prog |-> <<>>]
SegwitDecode(s) ==
    LET b == Bech32Decode(s) IN
    IF ~b.ok \/ b.data = <<>> THEN NoWit
    ELSE LET net == IF b.hrp = Codes("bc") THEN "main"
                    ELSE IF b.hrp = Codes("tb") \/ b.hrp = Codes("bcrt") THEN "test" ELSE "none"
             v == b.data[1]
             p == To8(Tail(b.data))
         IN  IF net = "none" \/ v > 16 \/ ~p.ok \/ Len(p.val) < 2 \/ Len(p.val) > 40
                \/ (v = 0 /\ Len(p.val) \notin {20, 32})
             THEN NoWit
             ELSE [ok |-> TRUE, net |-> net, ver |-> v, prog |-> p.val]
=============================================================================

---------------------------- MODULE SecrecyTrace -----------------------------
(***************************************************************************)
(* Recorded histories: what was seen on every channel outside the wallet   *)
(* holds no part of a secret in any of its written forms, and no two       *)
(* different signatures share their nonce (their r).                       *)
(*  r.secrets  hex;  r.steps [act, seen: seq of [ch, text]];  r.sigs: DER  *)
(***************************************************************************)
EXTENDS Address, BigNat, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k
TInit == k \in 1..Len(Trace)

\* ----- the forms a secret can be written in, as code sequences, and the parts of each that give it away
Windows(s, n) == {SubSeq(s, i, i + n - 1) : i \in 1..(Len(s) - n + 1)}
Upper(c) == [i \in 1..Len(c) |-> IF c[i] \in 97..122 THEN c[i] - 32 ELSE c[i]]
Alphabet64 == Codes("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
Alphabet64u == Codes("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")
\* Three bytes as four letters.
Quad(a, b, c, al) == <<al[(a \div 4) + 1], al[(a % 4) * 16 + (b \div 16) + 1], al[(b % 16) * 4 + (c \div 64) + 1], al[(c % 64) + 1]>>
Base64(w, al) == Quad(w[1], w[2], w[3], al) \o Quad(w[4], w[5], w[6], al) \o Quad(w[7], w[8], w[9], al)
Digits4(n) == <<48 + (n \div 1000), 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Decimal(s) == LET b == FromLE(Rev(s)) IN Flatten([i \in 1..Len(b) |-> Digits4(b[Len(b) + 1 - i])])
Hexes(s) == {Codes(ToHex(w)) : w \in Windows(s, 8) \cup Windows(Rev(s), 8)}
Wifs(s) == UNION {Windows(SubSeq(WifOf(s, c, n), 2, 41), 14) : c \in BOOLEAN, n \in {"main", "test"}}
Forms(s) == Hexes(s) \cup {Upper(h) : h \in Hexes(s)}
            \cup {Base64(w, al) : w \in Windows(s, 9), al \in {Alphabet64, Alphabet64u}}
            \cup Windows(Decimal(s), 20) \cup Wifs(s)

Holds(text, forms) == Occurs(forms, text)
R(der) == SubSeq(der, 5, 4 + der[4])
S(der) == SubSeq(der, 7 + der[4], Len(der))
Leaks(r) ==
    LET forms == UNION {Forms(FromHex(s)) : s \in {r.secrets[i] : i \in 1..Len(r.secrets)}}
        all == UNION {{r.steps[i].seen[j] : j \in 1..Len(r.steps[i].seen)} : i \in 1..Len(r.steps)}
    IN  {"secret-in-" \o o.ch : o \in {x \in all : Holds(x.text, forms)}}
Nonces(r) ==
    LET sigs == {FromHex(r.sigs[i]) : i \in 1..Len(r.sigs)}
    IN  IF Cardinality({R(x) : x \in sigs}) # Cardinality({<<R(x), S(x)>> : x \in sigs}) THEN {"nonce-shared"} ELSE {}
Fail(r) == Leaks(r) \cup Nonces(r)
TNext == /\ k <= Len(Trace) /\ k' = Len(Trace) + k
         /\ PrintT("V " \o ToJson([k |-> k, fail |-> SetToSeq(Fail(Trace[k]))]))
=============================================================================

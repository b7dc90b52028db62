-------------------------------- MODULE Prim --------------------------------
(***************************************************************************)
(* Primitives that TLC evaluates through Java overrides (java/Prim.java):  *)
(* the two hash functions, secp256k1 and text decoding.  In the            *)
(* specification they are uninterpreted operators on byte sequences; the   *)
(* overrides are written from the standards and share no code with bit.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Byte == 0..255

SHA256(b)          == CHOOSE h \in Seq(Byte) : Len(h) = 32
RIPEMD160(b)       == CHOOSE h \in Seq(Byte) : Len(h) = 20
EcPub(secret, cmp) == CHOOSE k \in Seq(Byte) : Len(k) = IF cmp THEN 33 ELSE 65
EcVerify(pub, digest, der) == CHOOSE v \in BOOLEAN : TRUE
IsDerSig(der)      == CHOOSE v \in BOOLEAN : TRUE
FromHex(s)         == CHOOSE b \in Seq(Byte) : 2 * Len(b) = Len(s)
ToHex(b)           == CHOOSE s \in STRING : Len(s) = 2 * Len(b)
Codes(s)           == CHOOSE c \in Seq(Nat) : Len(c) = Len(s)

\* Concatenation of a sequence of sequences (an override for speed only).
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

\* Does any of the code sequences occur in the text? (likewise)
Occurs(parts, s) == \E p \in parts : \E i \in 0..(Len(s) - Len(p)) : \A j \in 1..Len(p) : Codes(s)[i + j] = p[j]

Hash256(b) == SHA256(SHA256(b))
Hash160(b) == RIPEMD160(SHA256(b))
=============================================================================

------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers beyond TLC's 32-bit integers: little-endian sequences   *)
(* of base-10000 limbs without trailing zero limbs; zero is <<>>.          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt

Base == 10000
IsBig(a) == a \in Seq(0..(Base-1)) /\ (a # <<>> => a[Len(a)] # 0)

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE Norm(_)
Norm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a)-1)) ELSE a

RECURSIVE BigOf(_)
BigOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o BigOf(n \div Base)

MaxLen(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)

\* Carry propagation: d is a sequence of limbs possibly >= Base (or negative).
Carry(d) ==
    LET st == FoldLeft(LAMBDA s, x : [r |-> Append(s.r, (x + s.c) % Base), c |-> (x + s.c) \div Base],
                       [r |-> <<>>, c |-> 0], d)
    IN  Norm(st.r \o BigOf(st.c))

Add(a, b) == Carry([i \in 1..MaxLen(a, b) |-> Limb(a, i) + Limb(b, i)])

\* Comparison: -1, 0, 1.
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i-1)
Cmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))
Le(a, b) == Cmp(a, b) <= 0
Lt(a, b) == Cmp(a, b) < 0

\* a - b for a >= b.
Sub(a, b) == 
    LET st == FoldLeft(LAMBDA s, i : LET x == Limb(a, i) - Limb(b, i) - s.c
                                     IN  [r |-> Append(s.r, IF x < 0 THEN x + Base ELSE x), c |-> IF x < 0 THEN 1 ELSE 0],
                       [r |-> <<>>, c |-> 0], [i \in 1..Len(a) |-> i])
    IN  Norm(st.r)

\* a * n for 0 <= n <= 100000.
MulSmall(a, n) == IF n = 0 THEN <<>> ELSE Carry([i \in 1..Len(a) |-> a[i] * n])

\* General product (schoolbook).
Mul(a, b) ==
    FoldLeft(LAMBDA acc, j : IF b[j] = 0 THEN acc
                             ELSE Add(acc, [i \in 1..(j-1) |-> 0] \o MulSmall(a, b[j])),
             <<>>, [j \in 1..Len(b) |-> j])

SumBig(s) == FoldLeft(LAMBDA acc, x : Add(acc, x), <<>>, s)

\* 10^k
RECURSIVE Pow10(_)
Pow10(k) == IF k >= 4 THEN <<0>> \o Pow10(k-4)
            ELSE IF k = 0 THEN <<1>> ELSE IF k = 1 THEN <<10>> ELSE IF k = 2 THEN <<100>> ELSE <<1000>>

\* From little-endian bytes.
FromLE(b) == FoldLeft(LAMBDA acc, i : Add(MulSmall(acc, 256), BigOf(b[Len(b)+1-i])), <<>>, [i \in 1..Len(b) |-> i])
\* From most-significant-first decimal digits.
FromDigits(d) == FoldLeft(LAMBDA acc, x : Add(MulSmall(acc, 10), BigOf(x)), <<>>, d)
\* To a TLC integer (caller guarantees it fits).
ToInt(a) == FoldLeft(LAMBDA acc, i : acc * Base + a[Len(a)+1-i], 0, [i \in 1..Len(a) |-> i])
=============================================================================

------------------------------- MODULE BigInt -------------------------------
(* Integers of any size, because TLC's own have 32 bits. A number is a       *)
(* sequence: its sign (-1, 0, 1), then the limbs of its magnitude, each of   *)
(* 12 bits, the least significant first and the last one not zero.           *)
EXTENDS Integers, Sequences

LOCAL Base == 4096

BZero == <<0>>

RECURSIVE Trim(_)
LOCAL Trim(m) ==
    IF Len(m) > 0 /\ m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m

LOCAL Mag(x) == Tail(x)
LOCAL Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

LOCAL Make(sign, m) ==
    LET t == Trim(m) IN IF t = <<>> THEN BZero ELSE <<sign>> \o t

\* Magnitudes -----------------------------------------------------------------
RECURSIVE CmpFrom(_, _, _)
LOCAL CmpFrom(m, n, i) ==
    IF i = 0 THEN 0
    ELSE IF Limb(m, i) < Limb(n, i) THEN -1
    ELSE IF Limb(m, i) > Limb(n, i) THEN 1
    ELSE CmpFrom(m, n, i - 1)

LOCAL Max(a, b) == IF a > b THEN a ELSE b

LOCAL CmpMag(m, n) == CmpFrom(m, n, Max(Len(m), Len(n)))

RECURSIVE AddFrom(_, _, _, _, _)
LOCAL AddFrom(m, n, i, carry, acc) ==
    IF i > Max(Len(m), Len(n))
    THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
    ELSE LET s == Limb(m, i) + Limb(n, i) + carry
         IN AddFrom(m, n, i + 1, s \div Base, Append(acc, s % Base))

LOCAL AddMag(m, n) == AddFrom(m, n, 1, 0, <<>>)

\* m >= n
RECURSIVE SubFrom(_, _, _, _, _)
LOCAL SubFrom(m, n, i, borrow, acc) ==
    IF i > Len(m) THEN acc
    ELSE LET s == Limb(m, i) - Limb(n, i) - borrow
         IN SubFrom(m, n, i + 1, IF s < 0 THEN 1 ELSE 0, Append(acc, s % Base))

LOCAL SubMag(m, n) == SubFrom(m, n, 1, 0, <<>>)

RECURSIVE ScaleFrom(_, _, _, _, _)
LOCAL ScaleFrom(m, d, i, carry, acc) ==
    IF i > Len(m)
    THEN IF carry = 0 THEN acc ELSE Append(acc, carry)
    ELSE LET s == m[i] * d + carry
         IN ScaleFrom(m, d, i + 1, s \div Base, Append(acc, s % Base))

RECURSIVE MulFrom(_, _, _)
LOCAL MulFrom(m, n, i) ==
    IF i > Len(n) THEN <<>>
    ELSE AddMag(ScaleFrom(m, n[i], 1, 0, <<>>), <<0>> \o MulFrom(m, n, i + 1))

\* Numbers --------------------------------------------------------------------
BNeg(x) == <<-x[1]>> \o Mag(x)
BAbs(x) == IF x[1] < 0 THEN BNeg(x) ELSE x

BCmp(x, y) ==
    IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1)
    ELSE x[1] * CmpMag(Mag(x), Mag(y))
BLeq(x, y) == BCmp(x, y) <= 0
BLess(x, y) == BCmp(x, y) < 0

BAdd(x, y) ==
    IF x[1] = 0 THEN y
    ELSE IF y[1] = 0 THEN x
    ELSE IF x[1] = y[1] THEN Make(x[1], AddMag(Mag(x), Mag(y)))
    ELSE IF CmpMag(Mag(x), Mag(y)) >= 0
         THEN Make(x[1], SubMag(Mag(x), Mag(y)))
         ELSE Make(y[1], SubMag(Mag(y), Mag(x)))

BSub(x, y) == BAdd(x, BNeg(y))
BMul(x, y) == Make(x[1] * y[1], MulFrom(Mag(x), Mag(y), 1))

\* q is the quotient of x and y (not zero), truncated.
IsQuotient(q, x, y) ==
    LET rest == BSub(x, BMul(q, y))
    IN /\ BLess(BAbs(rest), BAbs(y))
       /\ rest[1] \in {0, x[1]}

\* A native number.
RECURSIVE Limbs(_)
LOCAL Limbs(n) ==
    IF n = 0 THEN <<>> ELSE <<n % Base>> \o Limbs(n \div Base)
BOf(n) == IF n = 0 THEN BZero
          ELSE IF n > 0 THEN <<1>> \o Limbs(n) ELSE <<-1>> \o Limbs(-n)

RECURSIVE BPow2(_)
BPow2(n) == IF n < 12 THEN <<1, 2 ^ n>>
            ELSE <<1, 0>> \o Tail(BPow2(n - 12))
=============================================================================

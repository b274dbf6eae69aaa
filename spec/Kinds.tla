-------------------------------- MODULE Kinds --------------------------------
(* The value types of the algorithms, and which numbers they can hold.       *)
EXTENDS Integers, Sequences, BigInt

Signed == {"i8", "i16", "i32", "i64"}
Unsigned == {"u8", "u16", "u32", "u64"}
Floats == {"f32", "f64"}
IntKinds == Signed \union Unsigned
NumKinds == IntKinds \union Floats

Bits == [i8 |-> 8, u8 |-> 8, i16 |-> 16, u16 |-> 16, i32 |-> 32, u32 |-> 32,
         i64 |-> 64, u64 |-> 64, f32 |-> 32, f64 |-> 64]

SignedOf(bits) == CASE bits = 8 -> "i8" [] bits = 16 -> "i16"
                    [] bits = 32 -> "i32" [] OTHER -> "i64"

(* The type of the result of an arithmetic operation.                        *)
(* - Two types of the same kind: the widest.                                 *)
(* - A float and an integer: the float.                                      *)
(* - Signed and unsigned: the signed type that can hold both, as far as      *)
(*   there is one.                                                           *)
ResultKind(k1, k2) ==
    IF k1 = "b" /\ k2 = "b" THEN "b"
    ELSE IF k1 \in Floats /\ k2 \notin Floats THEN k1
    ELSE IF k2 \in Floats /\ k1 \notin Floats THEN k2
    ELSE IF (k1 \in Signed) = (k2 \in Signed)
         THEN IF Bits[k1] >= Bits[k2] THEN k1 ELSE k2
    ELSE LET s == IF k1 \in Signed THEN k1 ELSE k2
             u == IF k1 \in Signed THEN k2 ELSE k1
             next == IF Bits[u] = 64 THEN 64 ELSE 2 * Bits[u]
         IN IF next > Bits[s] THEN SignedOf(next) ELSE s

\* Bounds of the types whose values fit TLC's integers.
Lo == [i8 |-> -128, u8 |-> 0, i16 |-> -32768, u16 |-> 0]
Hi == [i8 |-> 127, u8 |-> 255, i16 |-> 32767, u16 |-> 65535]

InRange(k, x) == k \in DOMAIN Lo => Lo[k] <= x /\ x <= Hi[k]

\* Bounds of any integer type.
LOCAL BigHiTable == [k \in IntKinds |->
    BSub(BPow2(IF k \in Signed THEN Bits[k] - 1 ELSE Bits[k]), BOf(1))]
LOCAL BigLoTable == [k \in IntKinds |->
    IF k \in Signed THEN BNeg(BPow2(Bits[k] - 1)) ELSE BZero]
BigHi(k) == BigHiTable[k]
BigLo(k) == BigLoTable[k]
BigInRange(k, x) == BLeq(BigLo(k), x) /\ BLeq(x, BigHi(k))

\* Division that truncates.
Abs(x) == IF x < 0 THEN -x ELSE x
Quotient(x, y) ==
    LET q == Abs(x) \div Abs(y) IN IF (x < 0) = (y < 0) THEN q ELSE -q
=============================================================================

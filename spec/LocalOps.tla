------------------------------ MODULE LocalOps ------------------------------
(* What a local operation does to one cell, given the cells of its           *)
(* arguments. A cell of an argument is a value, or no-data.                  *)
(*                                                                           *)
(*   any argument no-data                     -> no-data                     *)
(*   else, arguments outside of the domain    -> no-data                     *)
(*   else, result outside of the result's range -> no-data                   *)
(*   else                                     -> the result                  *)
(*                                                                           *)
(* Outside...(..) tells that the arguments are outside of the domain, or the *)
(* result outside of the range; Is...(.., r, ..) that r is the result.       *)
(*                                                                           *)
(* Numbers are given in units: which, depends on the operation. Values that  *)
(* have no such number have a code.                                          *)
EXTENDS Kinds

NaN == 2000000001
Inf == 2000000002
MinusInf == 2000000003
TooLarge == 2000000004      \* finite, but not a native number of units
IsCode(x) == x > 2000000000 \/ x < -2000000000
NotFinite(x) == x \in {NaN, Inf, MinusInf}

Bool(x) == IF x THEN 1 ELSE 0

RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE BFact(_)
BFact(n) == IF n <= 1 THEN BOf(1) ELSE BMul(BOf(n), BFact(n - 1))

\* Operations whose result is not exact ------------------------------------------
\* In millionths.
Micro == 1000000
Tolerance(k, x) == IF k = "f32" THEN 20 + Abs(x) \div Micro ELSE 2
Close(k, r, x) == ~IsCode(r) /\ (IF r > x THEN r - x ELSE x - r)
                                    <= Tolerance(k, x)

\* Sine, by steps of 15 degrees.
LOCAL SinQuarter == <<0, 258819, 500000, 707107, 866025, 965926, 1000000>>
SinOf(step) ==
    LET s == step % 24
    IN CASE s <= 6 -> SinQuarter[s + 1]
         [] s > 6 /\ s <= 12 -> SinQuarter[12 - s + 1]
         [] s > 12 /\ s <= 18 -> -SinQuarter[s - 12 + 1]
         [] OTHER -> -SinQuarter[24 - s + 1]
CosOf(step) == SinOf(step + 6)
LOCAL TanQuarter == <<0, 267949, 577350, 1000000, 1732051, 3732051>>
TanOf(step) ==
    LET s == step % 12
    IN IF s < 6 THEN TanQuarter[s + 1] ELSE -TanQuarter[12 - s + 1]
\* A step, in millionths of a radian.
Steps(n) == LET table == <<0, 261799, 523599, 785398, 1047198, 1308997,
                           1570796, 1832596, 2094395, 2356194, 2617994,
                           2879793, 3141593>>
            IN IF n < 0 THEN -table[-n + 1] ELSE table[n + 1]
\* Inverses, for the sines of multiples of 15 degrees.
LOCAL AsinStep(x) ==
    CASE x = 0 -> 0 [] x = 500000 -> 2 [] x = 707107 -> 3 [] x = 866025 -> 4
      [] x = 1000000 -> 6 [] x = -500000 -> -2 [] x = -707107 -> -3
      [] x = -866025 -> -4 [] x = -1000000 -> -6
\* The gamma function, by halves.
LOCAL GammaHalf(a) ==
    CASE a = -3 -> 2363272 [] a = -1 -> -3544908 [] a = 1 -> 1772454
      [] a = 3 -> 886227 [] a = 5 -> 1329340

\* Powers: base b, exponent e in halves.
LOCAL Root(b) == CASE b = 0 -> 0 [] b = 1 -> 1 [] b = 4 -> 2 [] b = 9 -> 3
\* The largest exponents.
LOCAL MaxExponent(k, b) ==
    IF k = "f32" THEN IF b = 10 THEN 38 ELSE 127
    ELSE IF b = 10 THEN 308 ELSE 1023
LOCAL PowOutside(k, b, e) ==
    \/ b < 0 /\ e % 2 # 0
    \/ b = 0 /\ e < 0
    \/ b \in {2, 10} /\ e > 2 * MaxExponent(k, b)
\* No further than needed.
RECURSIVE Power(_, _)
LOCAL Power(b, n) ==
    IF n = 0 THEN 1
    ELSE LET p == Power(b, n - 1)
         IN IF Abs(p) > 3000 /\ Abs(b) > 1 THEN (IF b < 0 THEN -p ELSE p)
            ELSE p * b
LOCAL IntPowIs(k, r, b, n) ==
    IF n >= 0
    THEN LET x == Power(b, n)
         IN IF Abs(x) < 2000 THEN Close(k, r, x * Micro)
            ELSE r = (IF b < 0 /\ n % 2 # 0 THEN -TooLarge ELSE TooLarge)
    ELSE LET p == Power(b, -n)
         IN /\ Abs(r) <= 2 * Micro
            /\ Abs(p) <= 1300
               => LET d == Abs(r) * Abs(p) - Micro
                  IN Abs(d) <= 2 * Abs(p)
            /\ Abs(p) > 1300 => Abs(r) <= ((2 * Micro) \div Abs(p)) + 2
            /\ r # 0 => (r < 0) = (p < 0)
LOCAL PowIs(k, r, b, e) ==
    IF e % 2 = 0 THEN IntPowIs(k, r, b, e \div 2)
    ELSE IntPowIs(k, r, Root(b), e)

\* One argument --------------------------------------------------------------------
LOCAL FactArg(k, a) == IF k \in Floats THEN a \div 2 ELSE a
LOCAL MaxFact(k) ==
    CASE k = "i8" -> 5 [] k = "u8" -> 5 [] k = "i16" -> 7 [] k = "u16" -> 8
      [] k = "f32" -> 34 [] k = "f64" -> 170

Outside1(op, k, a) ==
    CASE op = "absolute" -> ~InRange(k, Abs(a))
      [] op = "sqrt" -> a \in {NaN, MinusInf} \/ a < 0
      \* a: the exponent; 1000 and -1000 if there is none
      [] op \in {"log", "log2", "log10"} -> a \in {NaN, MinusInf, -1000}
      [] op = "factorial" ->
            \/ a < 0
            \/ k \in Floats /\ a % 2 # 0
            \/ FactArg(k, a) > MaxFact(k)
      [] op = "tgamma" -> a % 2 = 0 /\ (a <= 0 \/ a \div 2 > MaxFact(k) + 1)
      [] op \in {"sin", "cos"} -> NotFinite(a)
      [] op = "tan" -> NotFinite(a) \/ a % 12 = 6
      [] op \in {"acos", "asin"} -> a = NaN \/ NotFinite(a)
                                    \/ Abs(a) > Micro
      [] OTHER -> FALSE

Is1(op, k, r, a) ==
    CASE op = "absolute" -> r = Abs(a)
      [] op = "not" -> r = Bool(a = 0)
      \* in eighths
      [] op = "floor" -> r = a \div 8
      [] op = "ceil" -> r = -((-a) \div 8)
      [] op = "trunc" -> r = (IF a < 0 THEN -((-a) \div 8) ELSE a \div 8)
      [] op = "round" -> r = (IF a < 0 THEN -((4 - a) \div 8)
                              ELSE (4 + a) \div 8)
      [] op = "same" -> r = a
      [] op = "sqrt" -> IF a = Inf THEN r = Inf
                        ELSE r >= 0 /\ r < 40000 /\ r * r = a
      [] op = "log" -> CASE a = 1000 -> r = MinusInf [] a = Inf -> r = Inf
                         [] OTHER -> Close(k, r, (a * 69314718) \div 100)
      [] op \in {"log2", "log10"} ->
            CASE a = 1000 -> r = MinusInf [] a = Inf -> r = Inf
              [] OTHER -> Close(k, r, a * Micro)
      [] op = "factorial" -> LET n == FactArg(k, a)
                             IN IF n <= 12
                                THEN Abs(r - Fact(n)) <=
                                     (IF k = "f32" THEN Fact(n) \div Micro
                                      ELSE 0)
                                ELSE r = TooLarge
      [] op = "tgamma" -> IF a % 2 # 0 THEN Close(k, r, GammaHalf(a))
                          ELSE LET n == a \div 2
                               IN IF n <= 7 THEN Close(k, r, Fact(n - 1)
                                                             * Micro)
                                  ELSE r = TooLarge
      [] op = "sin" -> Close(k, r, SinOf(a))
      [] op = "cos" -> Close(k, r, CosOf(a))
      [] op = "tan" -> Close(k, r, TanOf(a))
      [] op = "asin" -> Close(k, r, Steps(AsinStep(a)))
      [] op = "acos" -> Close(k, r, Steps(6 - AsinStep(a)))
      [] op = "atan" -> Close(k, r, Steps(a))

\* The same for large numbers.
BigOutside1(op, k, a) ==
    CASE op = "absolute" -> ~BigInRange(k, BAbs(a))
      [] op = "factorial" -> \/ a[1] < 0
                             \/ BLess(BOf(20), a)
                             \/ LET n == IF a = BZero THEN 0 ELSE a[2]
                                IN ~BigInRange(k, BFact(n))
      [] OTHER -> FALSE
BigIs1(op, r, a) ==
    CASE op = "absolute" -> r = BAbs(a)
      [] op = "not" -> r = BOf(Bool(a = BZero))
      [] op = "factorial" -> r = BFact(IF a = BZero THEN 0 ELSE a[2])

\* Two arguments ---------------------------------------------------------------------
Value2(op, a, b) ==
    CASE op = "add" -> a + b
      [] op = "subtract" -> a - b
      [] op = "multiply" -> a * b
      [] op = "divide" -> Quotient(a, b)
Arithmetic == {"add", "subtract", "multiply", "divide"}

\* bound: of the absolute value of the result, in its units (0: none)
Outside2(op, kr, bound, a, b) ==
    \/ op = "divide" /\ b = 0
    \/ op = "pow" /\ PowOutside(kr, a, b)
    \/ op \in Arithmetic
       /\ LET x == Value2(op, a, b)
          IN ~InRange(kr, x) \/ (bound > 0 /\ Abs(x) > bound)

\* The truth table of an operation on whether the arguments are zero.
Truth(op, p, q) ==
    CASE op = "and" -> p /\ q
      [] op = "or" -> p \/ q
      [] op = "xor" -> p # q
      [] op = "nor" -> ~(p \/ q)
      [] op = "xnor" -> p = q
Boolean == {"and", "or", "xor", "nor", "xnor"}
\* order: -1, 0, 1
Ordered(op, order) ==
    CASE op = "equal" -> order = 0
      [] op = "less" -> order < 0
      [] op = "less_equal" -> order <= 0
      [] op = "greater" -> order > 0
      [] op = "greater_equal" -> order >= 0
Comparison == {"equal", "less", "less_equal", "greater", "greater_equal"}

Is2(op, kr, r, a, b) ==
    CASE op \in Arithmetic -> r = Value2(op, a, b)
      [] op \in Boolean -> r = Bool(Truth(op, a # 0, b # 0))
      [] op \in Comparison ->
            r = Bool(Ordered(op, IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0))
      [] op = "min" -> r = (IF a < b THEN a ELSE b)
      [] op = "max" -> r = (IF a < b THEN b ELSE a)
      [] op = "pow" -> PowIs(kr, r, a, b)

\* The same for large numbers. The quotient is not computed but recognised.
BigOutside2(op, kr, a, b) ==
    CASE op = "add" -> ~BigInRange(kr, BAdd(a, b))
      [] op = "subtract" -> ~BigInRange(kr, BSub(a, b))
      [] op = "multiply" -> ~BigInRange(kr, BMul(a, b))
      [] op = "divide" ->
             \/ b = BZero
             \* |a / b| <= |a|
             \/ /\ BCmp(BAbs(b), BOf(1)) = 0
                /\ ~BigInRange(kr, IF b[1] < 0 THEN BNeg(a) ELSE a)
      [] OTHER -> FALSE

BigIs2(op, r, a, b) ==
    CASE op = "add" -> r = BAdd(a, b)
      [] op = "subtract" -> r = BSub(a, b)
      [] op = "multiply" -> r = BMul(a, b)
      [] op = "divide" -> IsQuotient(r, a, b)
      [] op \in Boolean -> r = BOf(Bool(Truth(op, a # BZero, b # BZero)))
      [] op \in Comparison -> r = BOf(Bool(Ordered(op, BCmp(a, b))))
      [] op = "min" -> r = (IF BLess(a, b) THEN a ELSE b)
      [] op = "max" -> r = (IF BLess(a, b) THEN b ELSE a)
=============================================================================

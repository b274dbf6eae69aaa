------------------------------- MODULE AggOps -------------------------------
(* Statistics of the cells of a collection that hold a value, in order.      *)
(* Numbers are native integers, or BigInts (big).                            *)
EXTENDS Kinds, TLC

Inf == 2000000002
MinusInf == 2000000003
\* An infinity is coded; this restores the order.
Num(x) == IF x = MinusInf THEN -Inf ELSE x

Zero(big) == IF big THEN BZero ELSE 0
Plus(big, x, y) == IF big THEN BAdd(x, y) ELSE x + y
Leq(big, x, y) == IF big THEN BLeq(x, y) ELSE Num(x) <= Num(y)
Larger(big, x, y) == IF Leq(big, x, y) THEN y ELSE x
Smaller(big, x, y) == IF Leq(big, x, y) THEN x ELSE y

\* [total, high, low]: the sum, and the largest and smallest sum of any
\* values that follow each other (or of none).
RECURSIVE SumsFrom(_, _, _, _)
SumsFrom(big, s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE LET x == s[i]
             up == Larger(big, Plus(big, acc.up, x), Zero(big))
             down == Smaller(big, Plus(big, acc.down, x), Zero(big))
         IN SumsFrom(big, s, i + 1,
                [total |-> Plus(big, acc.total, x), up |-> up, down |-> down,
                 high |-> Larger(big, acc.high, up),
                 low |-> Smaller(big, acc.low, down)])
Sums(big, s) ==
    LET z == Zero(big)
    IN SumsFrom(big, s, 1,
                [total |-> z, up |-> z, down |-> z, high |-> z, low |-> z])

\* bound: for floats, the first number of units that is too large; 0: none is
\* reached.
Fits(big, kind, bound, x) ==
    IF kind \in Floats THEN bound = 0 \/ Abs(x) < bound
    ELSE IF big THEN BigInRange(kind, x) ELSE InRange(kind, x)

\* A sum that does not fit must be reported. If it does, but the sum of some of
\* the values does not, it may be reported: how values are combined is up to
\* the execution policy.
MustReport(big, kind, bound, sums) == ~Fits(big, kind, bound, sums.total)
MayReport(big, kind, bound, sums) ==
    \/ ~Fits(big, kind, bound, sums.high)
    \/ ~Fits(big, kind, bound, sums.low)

RECURSIVE Most(_, _, _)
Most(big, s, i) == IF i = 1 THEN s[1]
                   ELSE Larger(big, Most(big, s, i - 1), s[i])
RECURSIVE Least(_, _, _)
Least(big, s, i) == IF i = 1 THEN s[1]
                    ELSE Smaller(big, Least(big, s, i - 1), s[i])
Max(big, s) == Most(big, s, Len(s))
Min(big, s) == Least(big, s, Len(s))

RECURSIVE CountFrom(_, _, _, _)
CountFrom(s, x, i, n) ==
    IF i > Len(s) THEN n
    ELSE CountFrom(s, x, i + 1, IF s[i] = x THEN n + 1 ELSE n)
Count(s, x) == CountFrom(s, x, 1, 0)

\* r is the mean of n values with that sum: truncated, for integers; for
\* floats r is in thousandths and the sum in units of 1 / per.
IsMean(big, kind, r, total, n, per) ==
    IF kind \in Floats
    THEN Abs(r * n - total * (1000 \div per)) <= n
    ELSE IF big THEN IsQuotient(r, total, BOf(n))
    ELSE r = Quotient(total, n)

\* Twice the median of a collection.
Sorted(big, s) == SortSeq(s, LAMBDA x, y: x # y /\ Leq(big, x, y))
Median2(big, s) ==
    LET t == Sorted(big, s)
        n == Len(s)
    IN IF n % 2 = 1 THEN Plus(big, t[(n + 1) \div 2], t[(n + 1) \div 2])
       ELSE Plus(big, t[n \div 2], t[n \div 2 + 1])
\* For floats r is in units that are half as large.
IsMedian(big, kind, r, s) ==
    LET m == Median2(big, s)
    IN IF kind \in Floats THEN r = m
       ELSE IF big THEN IsQuotient(r, m, BOf(2))
       ELSE r = Quotient(m, 2)

IsMode(s, x) == /\ Count(s, x) > 0
                /\ \A i \in DOMAIN s: Count(s, s[i]) <= Count(s, x)

RECURSIVE SquaresFrom(_, _, _)
SquaresFrom(s, i, acc) ==
    IF i > Len(s) THEN acc ELSE SquaresFrom(s, i + 1, acc + s[i] * s[i])
\* The square of the number of values, times their variance.
Spread(s) ==
    LET total == Sums(FALSE, s).total
    IN Len(s) * SquaresFrom(s, 1, 0) - total * total
\* r in thousandths, the values in units of 1 / per.
IsVariance(r, s, per) ==
    LET n == Len(s) * Len(s) * per * per
    IN Abs(r * n - 1000 * Spread(s)) <= n
\* r in hundredths. The square of r differs less than one hundredth.
IsDeviation(r, s, per) ==
    LET n == Len(s) * Len(s) * per * per
        low == IF r = 0 THEN 0 ELSE (r - 1) * (r - 1)
    IN /\ r >= 0
       /\ 10000 * Spread(s) >= low * n
       /\ 10000 * Spread(s) <= (r + 1) * (r + 1) * n
=============================================================================

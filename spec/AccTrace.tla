------------------------------ MODULE AccTrace ------------------------------
(* Recorded programs over three accumulators. What an accumulator stands for *)
(* is the sequence of the values that were added to it; merging appends.     *)
EXTENDS AggOps, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* The accumulator reported that its total does not fit: it stands for nothing.
Void == [void |-> TRUE, s |-> <<>>]
Of(s) == [void |-> FALSE, s |-> s]

Totals == {"sum", "mean"}
\* Does what the accumulator keeps fit the type of its result?
TotalFits(e, s) ==
    CASE e.what \in Totals -> Fits(e.big, e.kr, 0, Sums(e.big, s).total)
      [] e.what = "count" -> Fits(e.big, e.kr, 0,
                                  IF e.big THEN BOf(Len(s)) ELSE Len(s))
      [] OTHER -> TRUE

Per(e) == IF e.k1 \notin Floats THEN 1
          ELSE IF e.what \in {"variance", "deviation"} THEN 2 ELSE 8

Got(e, s, r) ==
    LET n == Len(s)
        big == e.big
    IN CASE e.what = "sum" -> r = Sums(big, s).total
         [] e.what = "count" -> r = (IF big THEN BOf(n) ELSE n)
         [] e.what = "mean" ->
                n > 0 /\ IsMean(big, e.kr, r, Sums(big, s).total, n, Per(e))
         [] e.what = "max" -> r = Max(big, s)
         [] e.what = "min" -> r = Min(big, s)
         [] e.what = "range" ->
                r = (IF big THEN BSub(Max(big, s), Min(big, s))
                     ELSE Max(big, s) - Min(big, s))
         [] e.what = "median" -> IsMedian(big, e.kr, r, s)
         [] e.what = "mode" -> IsMode(s, r)
         [] e.what = "variance" -> IsVariance(r, s, Per(e))
         [] e.what = "deviation" -> IsDeviation(r, s, Per(e))

\* The accumulators after a step, or <<>> if the step is not possible.
After(e, t, accs) ==
    LET b == accs[t.b]
        c == accs[t.c]
        a == accs[t.a]
        Set(x) == [accs EXCEPT ![t.a] = x]
        Checked(s) == IF t.ok # TotalFits(e, s) THEN <<>>
                      ELSE Set(IF t.ok THEN Of(s) ELSE Void)
        Plain(s) == IF TotalFits(e, s) THEN Set(Of(s)) ELSE <<>>
    IN CASE t.s = "new" -> Set(Of(<<>>))
         [] t.s \in {"init", "set"} -> Plain(<<t.v>>)
         [] t.s = "add" -> Plain(Append(a.s, t.v))
         [] t.s = "addc" -> Checked(Append(a.s, t.v))
         [] t.s = "merge" -> Plain(a.s \o b.s)
         [] t.s = "mergec" -> Checked(a.s \o b.s)
         [] t.s = "join" -> Plain(b.s \o c.s)
         [] t.s = "copy" -> Set(b)
         [] t.s = "get" -> IF ~a.void /\ Got(e, a.s, t.r) THEN accs ELSE <<>>

RECURSIVE Run(_, _, _)
Run(e, i, accs) ==
    IF i > Len(e.steps) THEN TRUE
    ELSE LET next == After(e, e.steps[i], accs)
         IN next # <<>> /\ Run(e, i + 1, next)

Ok(e) == e.crash = 0 /\ Run(e, 1, [k \in 1 .. 3 |-> Of(<<>>)])

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================

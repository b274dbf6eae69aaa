--------------------------- MODULE ContainersTrace ---------------------------
(* Recorded programs over containers, against Containers.                    *)
EXTENDS Containers, IOUtils, Json, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

Masked(e) == e.sort \in {"masked_array", "masked_raster"}

\* What can be seen of a container.
Seen(c) == [shape |-> IF c.masked THEN c.shape \o c.shape ELSE c.shape,
            v |-> c.v, n |-> c.n, t |-> c.t]

Answers(c, t) ==
    LET d == Len(c.shape)
    IN /\ t.sizes = <<Cells(c), Cells(c), c.shape[1], d, c.shape[1]>> \o c.shape
       /\ t.got = c.v
       /\ d = 2 => t.indices = [k \in 1..Cells(c) |-> k - 1]
       /\ (d = 2 /\ c.t # <<>>) =>
              t.areas = <<c.t[2], c.t[4], c.t[2] * c.t[4]>>

\* The containers after a step; <<>> if the recorded answer is wrong.
After(e, t, cs) ==
    LET c == cs[t.a]
        Set(x) == [cs EXCEPT ![t.a] = x]
        If(p) == IF p THEN cs ELSE <<>>
    IN CASE t.s = "make" -> Set([masked |-> Masked(e), shape |-> t.shape,
                                 v |-> t.v, n |-> t.n, t |-> t.t])
         [] t.s = "clone" -> Set(Clone(cs[t.b], t.x))
         [] t.s = "copy" -> Set(cs[t.b])
         [] t.s = "move" -> cs
         [] t.s = "write" -> Set(Write(c, t.i, t.x))
         [] t.s = "mark" -> Set(Mark(c, t.i, t.m))
         [] t.s = "set_mask" -> Set(SetMask(c, t.x))
         [] t.s = "mask_from" -> Set(MaskFrom(c, t.l, t.x))
         [] t.s = "mask_to" -> If(t.l = MaskTo(c))
         [] t.s = "mask_all" -> Set(MaskAll(c))
         [] t.s = "has" -> If(t.r = HasMasked(c))
         [] t.s = "fill" -> Set(Fill(c, t.x))
         [] t.s = "transform" -> Set([c EXCEPT !.t[t.i] = t.x])
         [] t.s = "ask" -> If(Answers(c, t))

RECURSIVE Run(_, _, _)
Run(e, i, cs) ==
    IF i > Len(e.steps) THEN TRUE
    ELSE LET t == e.steps[i]
             next == After(e, t, cs)
         IN /\ next # <<>>
            /\ \A k \in 1 .. (IF i = 1 THEN 1 ELSE 2): t.o[k] = Seen(next[k])
            /\ Run(e, i + 1, next)

Nothing == [masked |-> FALSE, shape |-> <<0>>, v |-> <<>>, n |-> <<>>,
            t |-> <<>>]

\* References share the memory.
RECURSIVE RunReferences(_, _, _)
RunReferences(e, i, v) ==
    IF i > Len(e.steps) THEN TRUE
    ELSE LET t == e.steps[i]
             next == [v EXCEPT ![t.i] = t.x]
         IN /\ t.got = next /\ t.memory = next
            /\ t.sizes = <<Product(e.shape)>> \o e.shape
            /\ RunReferences(e, i + 1, next)

AfterScalar(t, cs) ==
    CASE t.s = "new" -> Scalar(0, FALSE)
      [] t.s \in {"value", "assign"} -> Scalar(t.x, FALSE)
      [] t.s = "both" -> Scalar(t.x, t.m)
      [] t.s = "copy" -> cs[t.b]
      [] t.s = "set" -> [cs[t.a] EXCEPT !.v = t.x]
      [] t.s = "mark" -> [cs[t.a] EXCEPT !.m = t.m]

RECURSIVE RunScalars(_, _, _)
RunScalars(e, i, cs) ==
    IF i > Len(e.steps) THEN TRUE
    ELSE LET t == e.steps[i]
             next == [cs EXCEPT ![t.a] = AfterScalar(t, cs)]
         IN /\ t.v = [k \in 1..9 |-> next[((k - 1) \div 3) + 1].v]
            /\ t.n = [k \in 1..3 |-> next[k].m]
            /\ t.same = [k \in 1..9 |->
                    next[((k - 1) \div 3) + 1] = next[((k - 1) % 3) + 1]]
            /\ RunScalars(e, i + 1, next)

Ok(e) ==
    /\ e.crash = 0
    /\ CASE e.op = "containers" -> Run(e, 1, <<Nothing, Nothing>>)
         [] e.op = "references" -> RunReferences(e, 1, e.v)
         [] e.op = "scalars" ->
                RunScalars(e, 1, [k \in 1..3 |-> Scalar(0, FALSE)])

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================

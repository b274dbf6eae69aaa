----------------------------- MODULE MCDocuments -----------------------------
(* All documents of some tokens: what reading them keeps to.                 *)
EXTENDS Documents

CONSTANTS Tags, Leaves, Longest, Versions

VARIABLES version, tokens, stack, refused
vars == <<version, tokens, stack, refused>>

Init == /\ version \in Versions /\ tokens = <<>> /\ stack = <<>>
        /\ refused = 0

Number(n) == [text |-> "t", number |-> TRUE, n |-> n]
Given(tag) ==
    IF tag = "gpx"
    THEN <<[name |-> "version",
            value |-> [text |-> IF version = 0 THEN "1.0" ELSE "1.1",
                       number |-> FALSE, n |-> 0]],
           [name |-> "creator", value |-> Number(0)]>>
    ELSE IF IsPoint(tag)
    THEN <<[name |-> "lat", value |-> Number(0)],
           [name |-> "lon", value |-> Number(1800000)]>>
    ELSE <<>>

Token(t, tag) ==
    [t |-> t, tag |-> tag, line |-> Len(tokens) + 1,
     attributes |-> IF t = "open" THEN Given(tag) ELSE <<>>,
     values |-> IF t = "leaf" THEN <<Number(1)>> ELSE <<>>]

\* The reader stops at the first token that it does not allow; what follows
\* does not matter, and one such token shows.
Next ==
    /\ Len(tokens) < Longest /\ refused = 0
    /\ ~(tokens # <<>> /\ stack = <<>>)       \* The document has ended.
    /\ \E t \in {"open", "close", "leaf", "chars"}:
       \E tag \in (IF t = "leaf" THEN Leaves ELSE IF t = "chars" THEN {""}
                   ELSE Tags):
           LET token == Token(t, tag)
               ok == TrackTokenOk(version, stack, token)
           IN /\ tokens' = Append(tokens, token)
              /\ refused' = (IF ok THEN 0 ELSE token.line)
              /\ stack' = (IF ok THEN TrackStack(stack, token) ELSE stack)
    /\ UNCHANGED version

Spec == Init /\ [][Next]_vars

Depth(t) ==
    Cardinality({k \in 1..Len(t): t[k].t = "open"}) -
    Cardinality({k \in 1..Len(t): t[k].t = "close"})

\* Going through the tokens at once or one by one is the same.
Same == TracksRefused(version, tokens, 1, <<>>) = refused

\* What is refused first stays refused, whatever follows.
Stays == refused # 0 =>
    \A tag \in Leaves: TracksRefused(version,
        Append(tokens, Token("leaf", tag)), 1, <<>>) = refused

\* The open elements are those that were not closed.
Balanced == refused = 0 => Depth(tokens) = Len(stack)

Total(version_, tokens_) ==
    LET r == Tracks(version_, tokens_)
        RECURSIVE Sum(_, _)
        Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
        segs == [k \in 1..Len(r.trks) |->
                     Sum([s \in 1..Len(r.trks[k].segs) |->
                              Len(r.trks[k].segs[s])], Len(r.trks[k].segs))]
        rtes == [k \in 1..Len(r.rtes) |-> Len(r.rtes[k].points)]
    IN Len(r.wpts) + Sum(rtes, Len(rtes)) + Sum(segs, Len(segs))

\* A document that was accepted to its end is read entirely: each point and
\* each track once.
Complete == (refused = 0 /\ tokens # <<>> /\ stack = <<>>) =>
    LET Opens(tags) == Cardinality({k \in 1..Len(tokens):
                           tokens[k].t = "open" /\ tokens[k].tag \in tags})
        r == Tracks(version, tokens)
    IN /\ Total(version, tokens) = Opens({"wpt", "rtept", "trkpt"})
       /\ Len(r.trks) = Opens({"trk"}) /\ Len(r.rtes) = Opens({"rte"})
       /\ Len(r.name) <= 1
       /\ version = 1 => \A k \in 1..Len(tokens): ~IsPoint(tokens[k].tag)

\* Roots.
Roots == \A n \in {0, 1, 2, 3, 4, 24, 25, 26, 99, 100, 4095, 4096, 4097,
                   2000000000, 1599999999, 1600000000}:
    LET d == Deviation(n) IN d * d <= n /\ (d + 1) * (d + 1) > n
=============================================================================

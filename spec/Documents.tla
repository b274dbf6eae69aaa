----------------------------- MODULE Documents -----------------------------
(* Documents are sequences of tokens, on lines: start tags (open), end tags  *)
(* (close), elements that hold only text (leaf), text between elements, and  *)
(* the end. A reader goes through them with a stack of the elements it is    *)
(* in; it refuses the document at the first token that is not allowed there, *)
(* and says on which line that is.                                           *)
EXTENDS Errors

\* Tracks: GPX 1.0 and 1.1 (versions 0 and 1).

\* What an element may contain, in this order.
Order(version, tag) ==
    CASE tag = "gpx" ->
             IF version = 0
             THEN <<"name", "desc", "author", "time", "wpt", "rte", "trk">>
             ELSE <<"metadata", "wpt", "rte", "trk">>
      [] tag = "metadata" -> <<"name", "desc", "time">>
      [] tag \in {"wpt", "rtept", "trkpt"} ->
             <<"ele", "time", "name", "cmt", "desc">>
      [] tag = "rte" -> <<"name", "cmt", "desc", "number", "rtept">>
      [] tag = "trk" -> <<"name", "cmt", "desc", "number", "trkseg">>
      [] tag = "trkseg" -> <<"trkpt">>
Many == {"wpt", "rte", "trk", "rtept", "trkseg", "trkpt"}

Declared(version, parent, tag) ==
    IF parent = "" THEN tag = "gpx"
    ELSE \E k \in DOMAIN Order(version, parent):
             Order(version, parent)[k] = tag

Rank(version, parent, tag) ==
    CHOOSE k \in DOMAIN Order(version, parent):
        Order(version, parent)[k] = tag

\* The children are in the order asked for; some come once.
Ordered(version, parent, seen) ==
    \A k \in 1..Len(seen) - 1:
        LET a == Rank(version, parent, seen[k])
            b == Rank(version, parent, seen[k + 1])
        IN a < b \/ (a = b /\ seen[k] \in Many)

IsPoint(tag) == tag \in {"wpt", "rtept", "trkpt"}

Allowed(tag) ==
    IF tag = "gpx" THEN {"version", "creator"}
    ELSE IF IsPoint(tag) THEN {"lat", "lon"} ELSE {}

AttributeOk(version, a) ==
    CASE a.name = "version" ->
             a.value.text = (IF version = 0 THEN "1.0" ELSE "1.1")
      [] a.name = "creator" -> TRUE
      [] a.name = "lat" ->
             a.value.number /\ -900000 <= a.value.n /\ a.value.n <= 900000
      [] a.name = "lon" ->
             /\ a.value.number /\ -1800000 <= a.value.n
             /\ a.value.n <= 1800000
             /\ version = 1 => a.value.n < 1800000
      [] OTHER -> FALSE

\* All attributes that there must be, and no others.
AttributesOk(version, token) ==
    /\ {token.attributes[k].name: k \in DOMAIN token.attributes} =
           Allowed(token.tag)
    /\ \A k \in DOMAIN token.attributes:
           AttributeOk(version, token.attributes[k])

TextOk(token) ==
    CASE token.tag \in {"ele", "time"} -> token.values[1].number
      [] token.tag = "number" ->
             token.values[1].number /\ token.values[1].n >= 0
      [] OTHER -> TRUE

\* stack: the elements that are open, with their children so far.
Top(stack) == stack[Len(stack)]
Parent(stack) == IF stack = <<>> THEN "" ELSE Top(stack).tag
Below(stack) == SubSeq(stack, 1, Len(stack) - 1)
Note(stack, tag) ==
    IF stack = <<>> THEN stack
    ELSE [stack EXCEPT ![Len(stack)].seen = Append(@, tag)]

\* Whether a token is allowed here, and the stack behind it.
TrackTokenOk(version, stack, token) ==
    CASE token.t = "open" ->
             /\ Declared(version, Parent(stack), token.tag)
             /\ AttributesOk(version, token)
      [] token.t = "leaf" ->
             /\ Declared(version, Parent(stack), token.tag)
             /\ token.attributes = <<>>
             /\ TextOk(token)
      [] token.t = "close" ->
             /\ token.tag = Parent(stack)
             /\ Ordered(version, token.tag, Top(stack).seen)
      [] token.t \in {"chars", "end"} -> FALSE

TrackStack(stack, token) ==
    CASE token.t = "open" ->
             Append(Note(stack, token.tag), [tag |-> token.tag, seen |-> <<>>])
      [] token.t = "leaf" -> Note(stack, token.tag)
      [] token.t = "close" -> Below(stack)
      [] OTHER -> stack

\* The line of the first token that is not allowed; 0 when all are.
RECURSIVE TracksRefused(_, _, _, _)
TracksRefused(version, tokens, i, stack) ==
    IF i > Len(tokens) THEN 0
    ELSE IF ~TrackTokenOk(version, stack, tokens[i]) THEN tokens[i].line
    ELSE TracksRefused(version, tokens, i + 1, TrackStack(stack, tokens[i]))

\* What is read: the elements inside the one that starts at a token.
RECURSIVE Behind(_, _)
Behind(tokens, i) ==
    LET RECURSIVE Go(_)
        Go(k) == IF tokens[k].t = "close" THEN k + 1
                 ELSE Go(Behind(tokens, k))
    IN IF tokens[i].t = "leaf" THEN i + 1 ELSE Go(i + 1)

Children(tokens, i) ==
    LET RECURSIVE Go(_)
        Go(k) == IF tokens[k].t = "close" THEN <<>>
                 ELSE <<k>> \o Go(Behind(tokens, k))
    IN Go(i + 1)

Of(tokens, i, tag) ==
    SelectSeq(Children(tokens, i), LAMBDA k: tokens[k].tag = tag)
Texts(tokens, i, tag) ==
    LET c == Of(tokens, i, tag)
    IN [k \in 1..Len(c) |-> tokens[c[k]].values[1].text]
Numbers(tokens, i, tag) ==
    LET c == Of(tokens, i, tag)
    IN [k \in 1..Len(c) |-> tokens[c[k]].values[1].n]
At(token, name) ==
    LET k == CHOOSE k \in DOMAIN token.attributes:
                 token.attributes[k].name = name
    IN token.attributes[k].value

Point(tokens, i) ==
    [lat |-> At(tokens[i], "lat").n, lon |-> At(tokens[i], "lon").n,
     ele |-> Numbers(tokens, i, "ele"), time |-> Texts(tokens, i, "time"),
     name |-> Texts(tokens, i, "name")]
Points(tokens, i, tag) ==
    LET c == Of(tokens, i, tag) IN [k \in 1..Len(c) |-> Point(tokens, c[k])]
Route(tokens, i) ==
    [name |-> Texts(tokens, i, "name"), number |-> Numbers(tokens, i, "number"),
     points |-> Points(tokens, i, "rtept")]
Track(tokens, i) ==
    LET c == Of(tokens, i, "trkseg")
    IN [name |-> Texts(tokens, i, "name"),
        number |-> Numbers(tokens, i, "number"),
        segs |-> [k \in 1..Len(c) |-> Points(tokens, c[k], "trkpt")]]

Tracks(version, tokens) ==
    LET routes == Of(tokens, 1, "rte")
        tracks == Of(tokens, 1, "trk")
        metadata == Of(tokens, 1, "metadata")
    IN [name |-> IF version = 0 THEN Texts(tokens, 1, "name")
                 ELSE IF metadata = <<>> THEN <<>>
                 ELSE Texts(tokens, metadata[1], "name"),
        creator |-> At(tokens[1], "creator").text,
        wpts |-> Points(tokens, 1, "wpt"),
        rtes |-> [k \in 1..Len(routes) |-> Route(tokens, routes[k])],
        trks |-> [k \in 1..Len(tracks) |-> Track(tokens, tracks[k])]]

\* Distributions: UncertML 2.0. A normal distribution has one mean, in 64ths,
\* and one variance, in 4096ths, which is positive.
Namespace == "http://www.uncertml.org/2.0"
Parameters == <<"mean", "variance">>

ParameterOk(token) ==
    /\ Len(token.values) = 1
    /\ token.values[1].number
    /\ token.tag = "variance" => token.values[1].n > 0

\* count: the number of parameters there are; -1: not in a distribution.
DistributionTokenOk(ns, count, token) ==
    CASE token.t = "open" ->
             /\ count = -1 /\ token.tag = "NormalDistribution"
             /\ ns = Namespace
      [] token.t = "leaf" ->
             /\ count \in 0..1 /\ token.tag = Parameters[count + 1]
             /\ ParameterOk(token)
      [] token.t = "close" -> count = 2 /\ token.tag = "NormalDistribution"
      [] token.t \in {"chars", "end"} -> FALSE

RECURSIVE DistributionRefused(_, _, _, _)
DistributionRefused(ns, tokens, i, count) ==
    IF i > Len(tokens) THEN 0
    ELSE IF ~DistributionTokenOk(ns, count, tokens[i]) THEN tokens[i].line
    ELSE DistributionRefused(ns, tokens, i + 1, count + 1)

Mean(tokens) == tokens[2].values[1].n
Variance(tokens) == tokens[3].values[1].n

\* The largest number of which the square is not larger. In 64ths, the standard
\* deviation is the root of the variance in 4096ths.
RECURSIVE Root(_, _, _)
Root(n, low, high) ==     \* low^2 <= n < high^2
    IF high = low + 1 THEN low
    ELSE LET m == (low + high) \div 2
         IN IF m * m <= n THEN Root(n, m, high) ELSE Root(n, low, m)
Deviation(n) == Root(n, 0, 46340)
=============================================================================

--------------------------------- MODULE MCIo ---------------------------------
(* All histories of handles and clients up to a length; the conventions of all *)
(* short texts.                                                                *)
EXTENDS Io

CONSTANTS Places, NrFiles, Longest, Letters, TextSize

VARIABLES s, live, n
vars == <<s, live, n>>

FileNames == {"a", "b", "c"}
UsedFiles == {f \in FileNames: NrFiles >= 2 \/ f = "a"}

Init == s = NoHandles(Places) /\ live = {} /\ n = 0

Steps == [op: {"open", "close", "move", "assign"}, from: 1..Places,
          to: 1..Places, file: UsedFiles]

Next == /\ n < Longest /\ n' = n + 1
        /\ \/ /\ \E step \in Steps: Can(s, step) /\ s' = Do(s, step)
              /\ UNCHANGED live
           \/ /\ \E p \in 1..2: live' = Toggle(live, p)
              /\ UNCHANGED s
Spec == Init /\ [][Next]_vars

Owner(id) == {p \in 1..Places: s.places[p].k = "dataset" /\ s.places[p].id = id}

\* An open dataset has one handle; one that is closed has none.
Owned == \A id \in DOMAIN s.closed:
    IF id \in s.open THEN Cardinality(Owner(id)) = 1 /\ s.closed[id] = 0
    ELSE Owner(id) = {} /\ s.closed[id] = 1

\* Ending all handles closes all datasets.
RECURSIVE CloseAll(_, _)
CloseAll(t, p) ==
    IF p = 0 THEN t
    ELSE LET step == [op |-> "close", from |-> 1, to |-> p, file |-> ""]
         IN CloseAll(IF Can(t, step) THEN Do(t, step) ELSE t, p - 1)
Ends == LET t == CloseAll(s, Places)
        IN t.open = {} /\ \A id \in DOMAIN t.closed: t.closed[id] = 1

\* Moving closes at most the dataset of the destination.
Moves == \A step \in Steps:
    (Can(s, step) /\ step.op \in {"move", "assign"}) =>
        LET t == Do(s, step) IN
        /\ t.open = s.open \ (IF s.places[step.to].k = "dataset"
                              THEN {s.places[step.to].id} ELSE {})
        /\ t.places[step.to] = s.places[step.from]

\* Of texts: a convention is listed once it stands apart.
TextsOf(size) == UNION {[1..k -> Letters]: k \in 0..size}
Listed == \A t \in TextsOf(TextSize):
    LET c == Conventions(TRUE, t) IN
    /\ Conventions(FALSE, t) = <<>>
    /\ \A k \in DOMAIN c: /\ Comma \notin T!Chars(c[k])
                          /\ T!Strip(c[k], {}) = c[k]
    /\ (Comma \notin T!Chars(t)) =>
            /\ Conventions(TRUE, t \o <<Comma>>) =
                   (IF t = <<>> THEN <<>> ELSE <<T!Strip(t, {})>>)
            /\ Conforms(TRUE, t \o <<32>> \o Coards)
            /\ Conforms(TRUE, t \o <<Comma, 32>> \o Coards)
ASSUME Listed

Prior == \A m \in BOOLEAN, h \in BOOLEAN, c \in [1..2 -> {"1", "2"}],
            p \in [1..2 -> BOOLEAN], nd \in {"1", "3"}:
    LET r == Marked(c, h, nd, m, p) IN
    /\ \A k \in 1..2: p[k] => r[k]
    /\ (~m \/ ~h \/ nd = "3") => r = p
    /\ (m /\ h) => \A k \in 1..2: c[k] = nd => r[k]
ASSUME Prior
=============================================================================

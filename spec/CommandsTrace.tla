---------------------------- MODULE CommandsTrace ----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

LOCAL INSTANCE SequencesExt
C == INSTANCE Commands

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* -----------------------------------------------------------------------------
\* Commands.
Split(path) ==
    \* Names have one character here.
    [k \in 1 .. (Len(path) \div 2) |-> SubSeq(path, 2 * k, 2 * k)]

World(e) ==
    [scripts |-> [n \in {e.scripts[k].name: k \in 1 .. Len(e.scripts)} |->
                    e.scripts[CHOOSE k \in 1 .. Len(e.scripts):
                        e.scripts[k].name = n]],
     dirs |-> {".", "some"}, texts |-> {"old"},
     in |-> [d \in {".", "some"} |->
                IF d = "." THEN {"new", "old", "more", "s.ran", "--help",
                                 "nothing"}
                ELSE {"some/new"}],
     stores |-> [f \in {"d.h5"} |-> {Split(e.paths[k]): k \in
                                     1 .. Len(e.paths)}],
     order |-> <<"f", "g">>,
     file |-> e.file, names |-> e.names]

\* A script in which an operation is called that does not exist: what its code
\* is has not been decided.
Undecided(w, e) ==
    /\ Len(e.argv) > 2 /\ e.argv[1] = "compile" /\ e.argv[2] = "c++"
    /\ \E k \in 3 .. Len(e.argv): /\ e.argv[k] \in DOMAIN w.scripts
                                  /\ w.scripts[e.argv[k]].kind = "unknown"

SameErr(err, expected) ==
    IF expected = <<C!Reason>> THEN err # <<>> ELSE err = expected

SameOut(e, r) ==
    CASE r.out = C!Version -> Len(e.out) = 2 /\ SubSeq(e.out[1], 1, 5) = "fern "
      [] r.out = C!Build -> Len(e.out) = 2
      [] OTHER -> e.out = r.out

OkCommand(e) ==
    LET w == World(e)
        r == C!Run(w, e.argv)
        files == {e.wrote[k].name: k \in 1 .. Len(e.wrote)}
        graph == r.graph[1] \o ":" \o r.graph[2]
    IN \/ Undecided(w, e)
       \/ /\ e.status = r.status
          /\ SameErr(e.err, r.err)
          /\ e.log = r.log
          /\ files = r.wrote
          /\ e.lost = 0
          /\ IF r.graph = <<>>
             THEN e.graphs = <<>> /\ SameOut(e, r)
             ELSE IF r.to = ""
             THEN Contains(e.graphs, graph)
             ELSE /\ e.graphs = <<>> /\ e.out = <<>>
                  /\ Len(e.wrote) = 1 /\ Contains(e.wrote[1].graphs, graph)

\* -----------------------------------------------------------------------------
OkSession(e) ==
    LET s == C!Session(e.typed) IN
    /\ e.status = "success"
    /\ Len(e.out) >= 2 /\ SubSeq(e.out[1], 1, 5) = "fern "
    /\ SubSeq(e.out, 3, Len(e.out)) = s.out
    /\ e.err = s.err
    /\ e.log = s.log
    /\ e.remembered

\* -----------------------------------------------------------------------------
\* Arguments of programs.
Values ==
    ("5" :> "int:5") @@ ("-3" :> "int:-3") @@ ("007" :> "int:7") @@
    ("0" :> "int:0") @@
    ("9223372036854775807" :> "int:9223372036854775807") @@
    ("-9223372036854775808" :> "int:-9223372036854775808") @@
    ("1.5" :> "float:1.5") @@ ("-0.25" :> "float:-0.25") @@
    ("1e3" :> "float:1000") @@ ("2.5e-1" :> "float:0.25") @@
    ("abc" :> "text:abc") @@ ("5 a" :> "text:5 a") @@ ("a5" :> "text:a5") @@
    ("1.5.2" :> "text:1.5.2") @@ ("--" :> "text:--") @@
    ("d.h5:x" :> "data:1") @@ ("d.h5:/x" :> "data:1") @@
    ("d.h5:f/x" :> "data:2") @@ ("d.h5" :> "") @@ ("d.h5:y" :> "") @@
    ("no.h5:x" :> "text:no.h5:x") @@ ("7:x" :> "data:1") @@ ("7" :> "") @@
    ("2.5:x" :> "data:1") @@ ("x y" :> "text:x y")
Sets ==
    ("d.h5:x" :> "d.h5") @@ ("d.h5:/x" :> "d.h5") @@ ("d.h5:f/x" :> "d.h5") @@
    ("e.h5:x" :> "e.h5") @@ ("e.h5" :> "e.h5") @@ ("f.h5:f/y" :> "f.h5") @@
    ("no/e.h5:x" :> "no/e.h5") @@ ("7:x" :> "7") @@ ("2.5:x" :> "2.5") @@
    [x \in DOMAIN Values |-> "none"]
New == {"d.h5", "e.h5", "f.h5"}

OkArguments(e) ==
    LET r == C!Parsed([values |-> Values, sets |-> Sets, new |-> New],
                      e.sources, e.syncs, e.given)
        Both(x) == [k \in 1 .. Len(x) |-> x[k] \o "|" \o x[k]]
    IN /\ e.status = r.status
       /\ e.from = r.from
       /\ e.to = r.to
       /\ e.check = r.check
       /\ e.more = r.more
       /\ e.described = Both(e.names) \o <<"">> \o Both(e.results) \o <<"">>

Ok(e) ==
    /\ e.crash = 0
    /\ CASE e.op = "command" -> OkCommand(e)
         [] e.op = "session" -> OkSession(e)
         [] OTHER -> OkArguments(e)

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================

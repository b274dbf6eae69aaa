---------------------------------- MODULE Io ----------------------------------
(* Reading of rasters and variables: datasets, handles, clients, errors.      *)
EXTENDS Integers, Sequences, FiniteSets
T == INSTANCE Texts

-----------------------------------------------------------------------------
\* Handles. A place has nothing in it ("none"), a handle without a dataset
\* ("empty") or a handle with the dataset of a file. Each opening is a dataset
\* of its own: what matters is that a dataset is closed once, by its handle.
None == [k |-> "none", id |-> 0, file |-> ""]
Empty == [k |-> "empty", id |-> 0, file |-> ""]
Dataset(id, file) == [k |-> "dataset", id |-> id, file |-> file]

\* Places, the datasets that are open, the number of closings of each dataset.
NoHandles(n) == [places |-> [p \in 1..n |-> None], open |-> {}, closed |-> <<>>]

Release(s, h) ==
    IF h.k = "dataset"
    THEN [s EXCEPT !.open = @ \ {h.id}, !.closed[h.id] = @ + 1] ELSE s

Can(s, step) ==
    CASE step.op = "open" -> s.places[step.to].k = "none"
      [] step.op = "close" -> s.places[step.to].k # "none"
      [] step.op = "move" -> /\ step.from # step.to
                             /\ s.places[step.from].k # "none"
                             /\ s.places[step.to].k = "none"
      [] step.op = "assign" -> /\ step.from # step.to
                               /\ s.places[step.from].k # "none"
                               /\ s.places[step.to].k # "none"
      [] OTHER -> FALSE

Do(s, step) ==
    CASE step.op = "open" ->
            LET id == Len(s.closed) + 1
            IN [places |-> [s.places EXCEPT ![step.to] = Dataset(id, step.file)],
                open |-> s.open \cup {id}, closed |-> Append(s.closed, 0)]
      [] step.op = "close" ->
            [Release(s, s.places[step.to]) EXCEPT !.places[step.to] = None]
      [] OTHER ->
            [Release(s, s.places[step.to])
                EXCEPT !.places[step.to] = s.places[step.from],
                       !.places[step.from] = Empty]

RECURSIVE After(_, _)
After(s, steps) ==
    IF steps = <<>> THEN s ELSE After(Do(s, Head(steps)), Tail(steps))

Files(s) == [p \in DOMAIN s.places |-> s.places[p].file]

-----------------------------------------------------------------------------
\* Clients: a step makes the client of a place, or ends the one that is there.
Toggle(live, step) == IF step \in live THEN live \ {step} ELSE live \cup {step}
RECURSIVE Live(_, _)
Live(live, steps) ==
    IF steps = <<>> THEN live ELSE Live(Toggle(live, Head(steps)), Tail(steps))

-----------------------------------------------------------------------------
\* Errors.
Error(file, what) == "IOError: I/O error handling " \o file \o ": " \o what
Missing == "Does not exist"
Unreadable == "Cannot be read"
Unwritable == "Cannot be written"

\* Something which is not a dataset: how it is refused. A link to nothing does
\* not exist.
Exists(what) == what \notin {"missing", "dangling"}
Refused(api, what, file) ==
    Error(file, CASE api = "netcdf" -> Unreadable
                  [] ~Exists(what) -> Missing
                  [] api = "update" -> Unwritable
                  [] OTHER -> Unreadable)

-----------------------------------------------------------------------------
\* Rasters. Cells are the texts of numbers.
Marked(cells, has, nodata, mark, prior) ==
    [k \in DOMAIN cells |-> prior[k] \/ (mark /\ has /\ cells[k] = nodata)]

-----------------------------------------------------------------------------
\* Variables, and the conventions a dataset says it conforms to: separated by
\* commas if there is one, and by white space otherwise. An attribute that is
\* not a text lists none.
Texts == {"text", "terminated"}
Comma == 44
Coards == <<67, 79, 65, 82, 68, 83>>
Conventions(has, t) ==
    IF ~has THEN <<>>
    ELSE IF Comma \in T!Chars(t)
    THEN LET p == T!Split(t, {Comma}) IN [k \in DOMAIN p |-> T!Strip(p[k], {})]
    ELSE T!Split(t, {})
Conforms(has, t) == \E k \in DOMAIN Conventions(has, t):
    Conventions(has, t)[k] = Coards

Names(vs) == {vs[k].name: k \in DOMAIN vs}
Variable(vs, name) == vs[CHOOSE k \in DOMAIN vs: vs[k].name = name]
IsScalar(v) == v.dims = 0

\* What is wrong with reading a number into a float64, if something is: how the
\* message starts.
Wrong(has, conventions, vs, path) ==
    IF ~Conforms(has, conventions)
    THEN "Does not conform to convention: COARDS"
    ELSE IF Len(path) # 1 THEN "Does not contain variable: "
    ELSE IF path[1] \notin Names(vs)
    THEN "Does not contain variable: " \o path[1]
    ELSE IF ~IsScalar(Variable(vs, path[1]))
    THEN "Variable is not a scalar: " \o path[1]
    ELSE IF Variable(vs, path[1]).type # "float64"
    THEN "Unsupported value type: "
    ELSE ""

StartsWith(text, start) ==
    Len(text) >= Len(start) /\ SubSeq(text, 1, Len(start)) = start
=============================================================================

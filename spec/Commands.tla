------------------------------ MODULE Commands ------------------------------
\* The fern program: what every command does, given its arguments and the
\* scripts and datasets that are there.
EXTENDS Integers, Sequences, FiniteSets

LOCAL INSTANCE SequencesExt

Help(about) == <<"usage: fern" \o about>>

Result(status, out, err) ==
    [status |-> status, out |-> out, err |-> err, graph |-> <<>>,
     to |-> "", wrote |-> {}, log |-> <<>>]
Helped(about) == Result("success", Help(about), <<>>)
Refused(about, err) == Result("failure", Help(about), <<err>>)
TooMany(about) == Refused(about, "Too many arguments.")
NotEnough(about) == Refused(about, "Not enough arguments.")

\* Reasons whose text is not the matter of the commands.
Reason == "some reason"

\* Asking for help comes first, and only then.
AsksHelp(args) == args # <<>> /\ args[1] = "--help"

RECURSIVE NrFlags(_, _)
NrFlags(args, flags) ==
    IF args = <<>> \/ args[1] \notin flags THEN 0
    ELSE 1 + NrFlags(Tail(args), flags)
Has(args, n, flag) == \E k \in 1 .. n: args[k] = flag
Without(args, n) == SubSeq(args, n + 1, Len(args))

\* -----------------------------------------------------------------------------
\* Scripts. The world tells what scripts there are (scripts: by name, also "-",
\* which is the standard input), and which directories (dirs) and other files (texts); in tells what
\* is, or can be, in a directory.
Handling(name, text) == "I/O error handling " \o name \o ": " \o text

Unreadable(w, name) ==
    IF name \in DOMAIN w.scripts
    THEN IF w.scripts[name].kind = "wrong" THEN Reason ELSE ""
    ELSE IF name \in w.texts THEN Reason
    ELSE IF name \in w.dirs THEN Handling(name, "Is a directory")
    ELSE Handling(name, "No such file or directory")

Unwritable(w, name) ==
    name \in w.dirs \/ ~\E d \in w.dirs: name \in w.in[d]

\* A file with a graph, or the graph itself.
Graph(w, args, kind) ==
    LET reason == Unreadable(w, args[1])
        graph == [Result("success", <<>>, <<>>)
                  EXCEPT !.graph = <<args[1], kind>>]
    IN CASE reason # "" -> Result("failure", <<>>, <<reason>>)
         [] reason = "" /\ Len(args) = 1 -> graph
         [] reason = "" /\ Len(args) > 1 /\ Unwritable(w, args[2]) ->
                Result("failure", <<>>,
                       <<Handling(args[2], "Cannot be written")>>)
         [] OTHER -> [graph EXCEPT !.to = args[2], !.wrote = {args[2]}]

Ast(w, args) ==
    LET flags == {"--with-cfg", "--with-use"}
        n == NrFlags(args, flags)
        rest == Without(args, n)
        kind == (IF Has(args, n, "--with-cfg") THEN 1 ELSE 0) +
                (IF Has(args, n, "--with-use") THEN 2 ELSE 0)
        about == " compile dot ast"
    IN CASE args = <<>> \/ AsksHelp(args) -> Helped(about)
         [] args # <<>> /\ ~AsksHelp(args) /\ rest = <<>> -> NotEnough(about)
         [] ~AsksHelp(args) /\ Len(rest) > 2 -> TooMany(about)
         [] OTHER -> Graph(w, rest, <<"ast0", "ast1", "ast2", "ast3">>[kind + 1])

Flowgraph(w, args) ==
    LET about == " compile dot flowgraph" IN
    IF args = <<>> \/ AsksHelp(args) THEN Helped(about)
    ELSE IF Len(args) > 2 THEN TooMany(about)
    ELSE Graph(w, args, "flowgraph")

Dot(w, args) ==
    CASE args = <<>> \/ AsksHelp(args) -> Helped(" compile dot")
      [] args # <<>> /\ args[1] = "ast" -> Ast(w, Tail(args))
      [] args # <<>> /\ args[1] = "flowgraph" -> Flowgraph(w, Tail(args))
      [] OTHER -> Result("failure", <<>>,
            <<"Unknown graph type: " \o args[1],
              "See 'fern compile dot --help' for list of types.">>)

\* Code: a header and a module, named after the script, and other files that
\* are asked for.
Cpp(w, args) ==
    LET flags == {"--dump_driver", "--dump_cmake"}
        n == NrFlags(args, flags)
        rest == Without(args, n)
        reason == Unreadable(w, rest[1])
        about == " compile cpp"
        Path(name) == IF rest[2] = "." THEN name ELSE rest[2] \o "/" \o name
    IN CASE args = <<>> \/ AsksHelp(args) -> Helped(about)
         [] args # <<>> /\ ~AsksHelp(args) /\ Len(rest) < 2 -> NotEnough(about)
         [] ~AsksHelp(args) /\ Len(rest) > 2 -> TooMany(about)
         [] ~AsksHelp(args) /\ Len(rest) = 2 /\ reason # "" ->
                Result("failure", <<>>, <<reason>>)
         [] ~AsksHelp(args) /\ Len(rest) = 2 /\ reason = "" /\
            rest[2] \notin w.dirs ->
                Result("failure", <<>>,
                       <<Handling(rest[2], "Cannot be written")>>)
         [] OTHER ->
                [Result("success", <<>>, <<>>) EXCEPT !.wrote =
                    {Path("m.h"), Path("m.cc")} \union
                    (IF Has(args, n, "--dump_driver") THEN {Path("main.cc")}
                     ELSE {}) \union
                    (IF Has(args, n, "--dump_cmake")
                     THEN {Path("CMakeLists.txt")} ELSE {})]

Xml(args) ==
    LET about == " compile xml" IN
    IF args = <<>> \/ AsksHelp(args) THEN Helped(about)
    ELSE IF Len(args) > 2 THEN TooMany(about)
    ELSE Result("success", <<"TODO make XML visitor">>, <<>>)

Compile(w, args) ==
    CASE args = <<>> \/ AsksHelp(args) -> Helped(" compile")
      [] args # <<>> /\ args[1] = "dot" -> Dot(w, Tail(args))
      [] args # <<>> /\ args[1] = "c++" -> Cpp(w, Tail(args))
      [] args # <<>> /\ args[1] = "xml" -> Xml(Tail(args))
      [] OTHER -> Result("failure", <<>>,
            <<"Unknown target language: " \o args[1],
              "See 'fern compile --help' for list of languages.">>)

\* -----------------------------------------------------------------------------
\* Executing a script: its calls, in order, up to one that fails. Nothing, if
\* one of them is not known.
Execute(w, args) ==
    LET s == w.scripts[args[1]]
        reason == Unreadable(w, args[1])
    IN CASE args = <<>> \/ AsksHelp(args) -> Helped(" execute")
         [] Len(args) > 1 /\ ~AsksHelp(args) -> TooMany(" execute")
         [] Len(args) = 1 /\ ~AsksHelp(args) /\ reason # "" ->
                Result("failure", <<>>, <<reason>>)
         [] Len(args) = 1 /\ ~AsksHelp(args) /\ reason = "" /\
            s.kind = "unknown" -> Result("failure", <<>>, <<Reason>>)
         [] Len(args) = 1 /\ ~AsksHelp(args) /\ reason = "" /\
            s.kind = "fails" ->
                [Result("failure", <<>>,
                        <<"failed at " \o s.words[s.at + 1]>>)
                 EXCEPT !.log = SubSeq(s.words, 1, s.at)]
         [] OTHER -> [Result("success", <<>>, <<>>) EXCEPT !.log = s.words]

\* -----------------------------------------------------------------------------
\* Describing a dataset, or something in it. The world tells which paths of
\* attributes have been written (stores: by name).
Features(paths) ==
    UNION {{SubSeq(p, 1, k): k \in 1 .. (Len(p) - 1)}: p \in paths}
RECURSIVE Text(_)
Text(path) == IF path = <<>> THEN "" ELSE "/" \o path[1] \o Text(Tail(path))

Describe(w, args) ==
    LET paths == w.stores[w.file]
        root == {p[1]: p \in {q \in Features(paths): Len(q) = 1}}
    IN CASE args = <<>> \/ AsksHelp(args) -> Helped(" describe")
         [] Len(args) > 1 /\ ~AsksHelp(args) -> TooMany(" describe")
         [] Len(args) = 1 /\ ~AsksHelp(args) /\
            w.file \notin DOMAIN w.stores ->
                Result("success", <<"Dataset does not exist">>, <<>>)
         [] OTHER -> Result("success",
                CASE w.names = <<>> ->
                        \* By name.
                        [k \in 1 .. Cardinality(root) |->
                            "feature: " \o
                            SelectSeq(w.order, LAMBDA x: x \in root)[k]]
                  [] w.names \in Features(paths) ->
                        <<"feature: " \o Text(w.names)>>
                  [] w.names \in paths -> <<"attribute: " \o Text(w.names)>>
                  [] OTHER -> <<"Datapath does not point to a feature " \o
                                "or attribute">>, <<>>)

Import(args) ==
    CASE args = <<>> \/ AsksHelp(args) -> Helped(" import")
      [] Len(args) = 1 /\ ~AsksHelp(args) -> NotEnough(" import")
      [] Len(args) > 2 /\ ~AsksHelp(args) -> TooMany(" import")
      [] OTHER -> Result("success", <<>>, <<>>)

\* -----------------------------------------------------------------------------
\* The whole program. Versions are whatever they are.
Version == <<"version">>
Build == <<"build">>

Run(w, args) ==
    CASE args[1] = "--help" -> Helped("")
      [] args[1] = "--version" -> Result("success", Version, <<>>)
      [] args[1] = "--build" -> Result("success", Build, <<>>)
      [] args[1] = "compile" -> Compile(w, Tail(args))
      [] args[1] = "describe" -> Describe(w, Tail(args))
      [] args[1] = "execute" -> Execute(w, Tail(args))
      [] args[1] = "import" -> Import(Tail(args))
      [] OTHER -> Result("failure", Help(""), <<>>)

\* -----------------------------------------------------------------------------
\* The interpreter. A line is checked as a whole before it is executed.
Initial == [values |-> <<>>, log |-> <<>>, out |-> <<>>, err |-> 0]

Known(values, name) == \E k \in 1 .. Len(values): values[k][1] = name
Value(values, name) ==
    LET at == {k \in 1 .. Len(values): values[k][1] = name}
    IN values[CHOOSE k \in at: \A l \in at: l <= k][2]

RECURSIVE Valid(_, _)
Valid(names, parts) ==
    IF parts = <<>> THEN TRUE
    ELSE LET p == parts[1] IN
         IF p.kind = "name" /\ p.name \notin names THEN FALSE
         ELSE Valid(IF p.kind = "set" THEN names \union {p.name} ELSE names,
                    Tail(parts))

RECURSIVE Steps(_, _, _)
Steps(s, parts, stack) ==
    IF parts = <<>> THEN [s EXCEPT !.out = @ \o Reverse(stack)]
    ELSE LET p == parts[1]
             rest == Tail(parts)
         IN CASE p.kind = "text" -> Steps(s, rest, Append(stack, p.word))
              [] p.kind \in {"int", "float"} ->
                    Steps(s, rest, Append(stack, p.value))
              [] p.kind = "name" ->
                    Steps(s, rest, Append(stack, Value(s.values, p.name)))
              [] p.kind = "set" ->
                    Steps([s EXCEPT !.values = Append(@, <<p.name, p.word>>)],
                          rest, stack)
              [] p.kind = "call" ->
                    Steps([s EXCEPT !.log = Append(@, p.word)], rest,
                          Append(stack, p.word \o "!"))
              [] OTHER -> [s EXCEPT !.err = @ + 1]

Typed(s, line) ==
    IF line.wrong \/ ~Valid({s.values[k][1]: k \in 1 .. Len(s.values)},
                            line.parts)
    THEN [s EXCEPT !.err = @ + 1]
    ELSE Steps(s, line.parts, <<>>)

Session(lines) == FoldLeft(Typed, Initial, lines)

\* -----------------------------------------------------------------------------
\* Arguments of a program: first those that it reads, then those that it
\* writes; the last ones may be missing. What they are is told by the world:
\* values (what a text is a value of, or "" if the data is not there), what the
\* dataset of a text is (sets), and which datasets can be written (new).
\* A dataset that is in use cannot be overwritten.
Sources(w, n, given) == SubSeq(given, 1, IF n < Len(given) THEN n ELSE Len(given))
Syncs(w, n, m, given) ==
    LET rest == SubSeq(given, n + 1, Len(given))
    IN SubSeq(rest, 1, IF m < Len(rest) THEN m ELSE Len(rest))

RECURSIVE Writable(_, _, _)
Writable(w, open, syncs) ==
    IF syncs = <<>> THEN TRUE
    ELSE LET set == w.sets[syncs[1]] IN
         /\ set \in w.new /\ set \notin open
         /\ Writable(w, open \union {set}, Tail(syncs))

Parsed(w, n, m, given) ==
    LET sources == Sources(w, n, given)
        syncs == Syncs(w, n, m, given)
        read == {w.sets[sources[k]]: k \in 1 .. Len(sources)}
        status ==
            IF \E k \in 1 .. Len(sources): w.values[sources[k]] = ""
               THEN "IOError"
            ELSE IF ~Writable(w, read, syncs) THEN "IOError"
            ELSE IF Len(given) > n + m
               THEN "Too many command line arguments provided"
            ELSE "fine"
    IN [status |-> status,
        from |-> IF status = "fine"
                 THEN [k \in 1 .. Len(sources) |-> w.values[sources[k]]]
                 ELSE <<>>,
        to |-> IF status = "fine"
               THEN [k \in 1 .. Len(syncs) |-> w.sets[syncs[k]]] ELSE <<>>,
        check |-> CASE status # "fine" -> "none"
                    [] status = "fine" /\ Len(sources) < n ->
                        "Not enough data sources"
                    [] OTHER -> "fine",
        more |-> CASE status # "fine" -> "none"
                   [] status = "fine" /\ Len(sources) + 1 < n ->
                        "Not enough data sources"
                   [] status = "fine" /\ Len(sources) + 1 > n ->
                        "Too many data sources"
                   [] OTHER -> "fine"]
=============================================================================

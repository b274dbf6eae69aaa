----------------------------- MODULE MCCommands -----------------------------
\* Laws of the commands, for all arguments up to some number; of the
\* interpreter, for all lines; and of the arguments of programs.
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NrArguments, NrLines, NrGiven

C == INSTANCE Commands

Words == {"compile", "dot", "ast", "flowgraph", "c++", "execute", "describe",
          "import", "--help", "--with-cfg", "--with-use", "--dump_cmake", "s",
          "bad", "fails", "none", "d", "out", "no"}

World ==
    [scripts |->
        [n \in {"s", "bad", "fails"} |->
            [kind |-> CASE n = "s" -> "good" [] n = "bad" -> "wrong"
                        [] OTHER -> "fails",
             words |-> <<"a", "b">>, at |-> 1]],
     dirs |-> {"d"}, texts |-> {}, in |-> [x \in {"d"} |-> {"out", "s"}],
     stores |-> [x \in {"s"} |-> {<<"f", "x">>, <<"y">>}],
     order |-> <<"f", "g">>, file |-> "s", names |-> <<>>]

Parts == {<<>>} \union
    {<<p>>: p \in
        [kind: {"text", "name", "set", "call", "fail"}, name: {"x"},
         word: {"a"}, value: {""}]} \union
    {<<p, q>>: p, q \in
        [kind: {"name", "set", "fail"}, name: {"x"}, word: {"a", "b"},
         value: {""}]}
Lines == [wrong: {FALSE}, parts: Parts] \union
    {[wrong |-> TRUE, parts |-> <<>>]}

Given == {"1", "r", "d", "w", "v"}
Arguments ==
    [values |-> ("1" :> "int:1") @@ ("r" :> "data") @@ ("d" :> "") @@
        ("w" :> "text:w") @@ ("v" :> "text:v"),
     sets |-> ("1" :> "none") @@ ("r" :> "R") @@ ("d" :> "D") @@ ("w" :> "W")
        @@ ("v" :> "V"),
     new |-> {"R", "W", "V"}]

VARIABLES args, s, line, given, n, m
vars == <<args, s, line, given, n, m>>

NoLine == [wrong |-> TRUE, parts |-> <<>>, nr |-> 0]

Init ==
    /\ args = <<>> /\ s = C!Initial /\ line = [nr |-> 0] /\ given = <<>>
    /\ n \in 0 .. 2 /\ m \in 0 .. 2

Argument ==
    /\ n = 0 /\ m = 0 /\ line.nr = 0 /\ given = <<>>
    /\ Len(args) < NrArguments
    /\ \E w \in Words: args' = Append(args, w)
    /\ UNCHANGED <<s, line, given, n, m>>

Type ==
    /\ n = 0 /\ m = 0 /\ args = <<>> /\ given = <<>>
    /\ line.nr < NrLines
    /\ \E x \in Lines:
        /\ s' = C!Typed(s, x)
        /\ line' = [nr |-> line.nr + 1, typed |-> x, before |-> s]
    /\ UNCHANGED <<args, given, n, m>>

Give ==
    /\ args = <<>> /\ line.nr = 0 /\ Len(given) < NrGiven
    /\ \E x \in Given: given' = Append(given, x)
    /\ UNCHANGED <<args, s, line, n, m>>

Next == Argument \/ Type \/ Give

\* -----------------------------------------------------------------------------
Ran == C!Run(World, args)
IsHelp(r) == r.out # <<>> /\ SubSeq(r.out[1], 1, 6) = "usage:"

\* What fails has no results; what has been done before, is.
FailureIsClean ==
    args # <<>> /\ Ran.status = "failure" =>
        /\ Ran.wrote = {} /\ Ran.graph = <<>>
        /\ Ran.err = <<>> => Ran.out = C!Help("")
        /\ Ran.log # <<>> => Ran.err # <<>> /\ args[1] = "execute"
SuccessIsQuiet ==
    args # <<>> /\ Ran.status = "success" => Ran.err = <<>>
\* Help comes instead of anything else.
HelpOnly ==
    args # <<>> /\ IsHelp(Ran) =>
        Ran.wrote = {} /\ Ran.log = <<>> /\ Ran.graph = <<>>
Commands == {"compile", "execute", "describe", "import"}
HelpOnDemand ==
    Len(args) > 1 /\ args[1] \in Commands /\ args[2] = "--help" =>
        Ran = C!Helped(" " \o args[1])
\* Graphs go to one place.
OnePlace ==
    args # <<>> /\ Ran.graph # <<>> =>
        /\ Ran.out = <<>>
        /\ Ran.wrote = (IF Ran.to = "" THEN {} ELSE {Ran.to})
        /\ Ran.to # "" => Ran.to = args[Len(args)]
\* Only what is named is written.
Named ==
    args # <<>> =>
        \A f \in Ran.wrote: \/ f = args[Len(args)]
                            \/ SubSeq(f, 1, 2) = args[Len(args)] \o "/"
\* Flags are a set.
Swapped(k) == [args EXCEPT ![k] = args[k + 1], ![k + 1] = args[k]]
Flags == {"--with-cfg", "--with-use"}
FlagsAreASet ==
    \A k \in 1 .. (Len(args) - 1):
        k > 3 /\ SubSeq(args, 1, 3) = <<"compile", "dot", "ast">> /\
        (\A l \in 4 .. (k + 1): args[l] \in Flags) =>
            C!Run(World, Swapped(k)) = Ran
FlagsTwice ==
    \A k \in 1 .. (Len(args) - 1):
        k > 3 /\ args[k] \in Flags /\ args[k] = args[k + 1] /\
        SubSeq(args, 1, 3) = <<"compile", "dot", "ast">> =>
            LET once == SubSeq(args, 1, k) \o SubSeq(args, k + 2, Len(args))
            IN (\A l \in 4 .. k: args[l] \in Flags) =>
                   C!Run(World, once) = Ran

\* -----------------------------------------------------------------------------
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Grows ==
    line.nr > 0 =>
        /\ Prefix(line.before.log, s.log) /\ Prefix(line.before.out, s.out)
        /\ Prefix(line.before.values, s.values)
        /\ s.err \in {line.before.err, line.before.err + 1}
ShownOnlyIfFine ==
    line.nr > 0 /\ s.err # line.before.err => s.out = line.before.out
WrongDoesNothing ==
    line.nr > 0 /\ line.typed.wrong =>
        s = [line.before EXCEPT !.err = @ + 1]
NamesAreRemembered ==
    line.nr > 0 /\ ~line.typed.wrong /\ line.typed.parts # <<>> /\
    line.typed.parts[1].kind = "set" /\ s.err = line.before.err =>
        C!Known(s.values, line.typed.parts[1].name)

\* -----------------------------------------------------------------------------
P(x) == C!Parsed(Arguments, n, m, x)
InOrder ==
    LET r == P(given) IN
    r.status = "fine" =>
        /\ Len(r.from) + Len(r.to) = Len(given)
        /\ Len(r.from) <= n /\ Len(r.to) <= m
        /\ r.to # <<>> => Len(r.from) = n
        /\ \A k \in 1 .. Len(r.from): r.from[k] = Arguments.values[given[k]]
        /\ \A k, l \in 1 .. Len(r.to): k # l => r.to[k] # r.to[l]
        /\ (r.check = "fine") = (Len(r.from) = n)
\* Fewer arguments are read the same way.
Monotone ==
    given # <<>> /\ P(given).status = "fine" =>
        LET fewer == P(SubSeq(given, 1, Len(given) - 1)) IN
        fewer.status = "fine" /\ Prefix(fewer.from, P(given).from) /\
        Prefix(fewer.to, P(given).to)
=============================================================================

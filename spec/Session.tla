------------------------------ MODULE Session -------------------------------
(* Programs that are executed after each other in the same session. A      *)
(* session remembers the values of variables (vars), and their types       *)
(* (types). Values are texts. What happens outside of the session is in    *)
(* the log, in order. If an operation fails, nothing is done anymore by    *)
(* that program. What was done stays done.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL INSTANCE SequencesExt
A == INSTANCE Ast
T == INSTANCE Types
E == INSTANCE Errors

Start == [vars |-> <<>>, types |-> <<>>, stack |-> <<>>, log |-> <<>>,
          value |-> "", outcome |-> "ok"]

(* Sequences of <<name, ...>>, of which the last one counts.               *)
Having(known, name) == {k \in 1..Len(known): known[k][1] = name}
Knows(known, name) == Having(known, name) # {}
Get(known, name) ==
    LET is == Having(known, name)
    IN known[CHOOSE k \in is: \A m \in is: m <= k][2]
Without(known, names) == SelectSeq(known, LAMBDA x: x[1] \notin names)

SourceNames(sources) == {sources[k].n: k \in 1..Len(sources)}
SourceOf(sources, name) ==
    sources[CHOOSE k \in 1..Len(sources): sources[k].n = name]

(***************************************************************************)
(* Expressions: the value, after what happens to find it.                  *)
(***************************************************************************)
RECURSIVE Eval(_, _, _, _)
Failed(s) == s.outcome = "failed"
Found(s, x, sources, ops) ==
    CASE x.k = "num" -> [s EXCEPT !.value = x.n \o ":" \o x.v]
      [] x.k = "str" -> [s EXCEPT !.value = "string:" \o x.v]
      [] x.k = "name" ->
            IF Knows(s.vars, x.n) THEN [s EXCEPT !.value = Get(s.vars, x.n)]
            ELSE LET v == SourceOf(sources, x.n).v
                 IN [s EXCEPT !.value = v, !.vars = Append(@, <<x.n, v>>),
                              !.log = Append(@, "read " \o x.n)]
      [] x.k \in {"call", "op"} ->
            LET all == FoldLeft(
                    LAMBDA r, y: LET t == Eval(r[1], y, sources, ops)
                                 IN <<t, Append(r[2], t.value)>>,
                    <<s, <<>>>>, x.a)
                done == x.n \o "(" \o A!Text(all[2], ",") \o ")"
                op == A!Operation(ops, x.n)[1]
            IN IF Failed(all[1]) THEN all[1]
               ELSE [all[1] EXCEPT
                        !.log = Append(@, "call " \o done),
                        !.value = IF op.as = 0 THEN "string:" \o done
                                  ELSE all[2][op.as],
                        !.outcome = IF op.fails THEN "failed" ELSE @]
Eval(s, x, sources, ops) ==
    IF Failed(s) THEN s ELSE Found(s, x, sources, ops)

(***************************************************************************)
(* Statements. The last assignment of a name is the one that is written.   *)
(***************************************************************************)
Perform(s, x, outputs, sources, syncs, ops) ==
    IF x.k = "assign"
    THEN LET t == Eval(s, x.a[2], sources, ops)
             n == x.a[1].n
         IN IF Failed(t) THEN t ELSE [t EXCEPT
                !.vars = Append(@, <<n, t.value>>),
                !.log = IF x.a[1].id \in outputs /\ n \in syncs
                        THEN Append(@, "write " \o n \o "=" \o t.value)
                        ELSE @]
    ELSE LET t == Eval(s, x, sources, ops)
         IN IF Failed(t) THEN t ELSE [t EXCEPT !.stack = Append(@, t.value)]

\* Variables with a source are forgotten: they are read again.
Execute(s, program, sources, syncs, ops) ==
    LET outputs == T!Range(A!Outputs(A!Bindings(program)))
        own == SourceNames(sources)
    IN FoldLeft(LAMBDA t, x: Perform(t, x, outputs, sources, syncs, ops),
                [s EXCEPT !.vars = Without(@, own), !.log = <<>>,
                          !.outcome = "ok"],
                program)

(***************************************************************************)
(* The interpreter: only valid programs are executed. Other ones change    *)
(* nothing.                                                                *)
(***************************************************************************)
Message(e) ==
    CASE e.kind = "UndefinedIdentifier" ->
            E!Text("UNDEFINED_IDENTIFIER", <<e.n>>)
      [] e.kind = "UndefinedOperation" ->
            E!Text("UNDEFINED_OPERATION", <<e.n>>)
      [] e.kind = "WrongNumberOfArguments" ->
            E!Text("WRONG_NUMBER_OF_ARGUMENTS",
                   <<e.n, ToString(e.required), ToString(e.provided)>>)
      [] e.kind = "WrongTypeOfArgument" ->
            E!Text("WRONG_TYPE_OF_ARGUMENT",
                   <<ToString(e.argument), e.n, e.required_types,
                     e.provided_types>>)

Rejection(source, e) ==
    E!Text("ERROR_VALIDATING",
           <<source, ToString(e.line), ToString(e.col), Message(e)>>)

Globals(s, sources) ==
    Without(s.types, SourceNames(sources))
    \o [k \in 1..Len(sources) |->
            <<sources[k].n, A!AsType(sources[k].t)>>]

Analysed(program, known, ops) ==
    A!Analysis([found |-> <<>>, stack |-> <<>>, errors |-> <<>>,
                known |-> known], program, ops)

\* Only whether it is valid.
Check(s, program, sources, ops) ==
    LET a == Analysed(program, Globals(s, sources), ops)
    IN [s EXCEPT !.log = <<>>,
                 !.outcome = IF a.errors = <<>> THEN "ok"
                             ELSE Rejection("m", a.errors[1])]

Interpret(s, program, sources, syncs, ops) ==
    LET a == Analysed(program, Globals(s, sources), ops)
    IN IF a.errors # <<>>
       THEN [s EXCEPT !.log = <<>>,
                      !.outcome = Rejection("m", a.errors[1])]
       ELSE LET t == Execute(s, program, sources, syncs, ops)
            IN [t EXCEPT !.types = SelectSeq(a.known,
                                             LAMBDA x: Knows(t.vars, x[1]))]
=============================================================================

-------------------------------- MODULE Ast ---------------------------------
(* Programs and what is derived from them. A node is a record: kind k, id, *)
(* position as expression p and as statement q, name n, text v,            *)
(* expressions a, blocks b, and the ids s of the scopes of the blocks. The *)
(* sentinel of a scope, or of an if, has the id of it, negated.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL INSTANCE SequencesExt
T == INSTANCE Types

Concat(seqs) == FoldLeft(LAMBDA all, s: all \o s, <<>>, seqs)
Text(parts, separator) ==
    FoldLeftDomain(LAMBDA t, k: t \o (IF k = 1 THEN "" ELSE separator)
                                  \o parts[k], "", parts)
Expressions == {"name", "num", "str", "sub", "attr", "call", "op"}

(***************************************************************************)
(* The syntax tree.                                                        *)
(***************************************************************************)
Unary == [Invert |-> "~", Not |-> "!", UnaryAdd |-> "+", UnarySub |-> "-"]
Binary == [add |-> "+", Sub |-> "-", Mult |-> "*", Div |-> "/", Mod |-> "%",
           Pow |-> "**", LShift |-> "<<", RShift |-> ">>", BitOr |-> "|",
           BitXor |-> "^", BitAnd |-> "&", FloorDiv |-> "//", And |-> "and",
           Or |-> "or", Eq |-> "==", NotEq |-> "!=", Lt |-> "<",
           LtE |-> "<=", Gt |-> ">", GtE |-> ">="]
Symbol(x) == IF Len(x.a) = 1 THEN Unary[x.n] ELSE Binary[x.n]

At(p) == "@" \o ToString(p[1]) \o "," \o ToString(p[2])

RECURSIVE Tree(_, _)
Trees(xs) == "(" \o Text([k \in 1..Len(xs) |-> Tree(xs[k], xs[k].p)], ",")
                 \o ")"
Tree(x, p) ==
    CASE x.k = "name" -> "N:" \o x.n \o At(p)
      [] x.k = "str" -> "S:" \o x.v \o At(p)
      [] x.k = "num" -> "#" \o x.n \o ":" \o x.v \o At(p)
      [] x.k = "sub" -> "[]" \o Trees(x.a) \o At(p)
      [] x.k = "attr" -> "." \o x.n \o Trees(x.a) \o At(p)
      [] x.k = "call" -> "C:" \o x.n \o Trees(x.a) \o At(p)
      [] x.k = "op" -> "O:" \o x.n \o ":" \o Symbol(x) \o Trees(x.a) \o At(p)

RECURSIVE StatementTree(_)
BlockTree(block) ==
    "{" \o Text([k \in 1..Len(block) |-> StatementTree(block[k]) \o ";"], "")
        \o "}"
StatementTree(x) ==
    CASE x.k \in Expressions -> Tree(x, x.q)
      [] x.k = "assign" -> "=" \o Trees(x.a) \o At(x.q)
      [] x.k \in {"if", "while"} ->
            x.k \o Trees(x.a) \o BlockTree(x.b[1]) \o BlockTree(x.b[2])
                \o At(x.q)
      [] x.k = "def" -> "def:" \o x.n \o Trees(x.a) \o BlockTree(x.b[1])
                               \o At(x.q)
      [] x.k = "ret" -> "ret" \o Trees(x.a) \o At(x.q)

ModuleTree(source, program) == source \o BlockTree(program) \o "@0,0"

(***************************************************************************)
(* The text of a module.                                                   *)
(***************************************************************************)
RECURSIVE Code(_)
Codes(xs) == [k \in 1..Len(xs) |-> Code(xs[k])]
Code(x) ==
    CASE x.k = "name" -> x.n
      [] x.k = "str" -> "\"" \o x.v \o "\""
      [] x.k = "num" ->
            x.v \o (IF x.n \in {"uint8", "uint16", "uint32", "uint64"}
                    THEN "U" ELSE "")
      [] x.k = "sub" -> "(" \o Code(x.a[1]) \o ")[" \o Code(x.a[2]) \o "]"
      [] x.k = "attr" -> "(" \o Code(x.a[1]) \o ")." \o x.n
      [] x.k = "call" -> x.n \o "(" \o Text(Codes(x.a), ", ") \o ")"
      [] x.k = "op" /\ Len(x.a) = 1 ->
            Symbol(x) \o "(" \o Code(x.a[1]) \o ")"
      [] x.k = "op" /\ Len(x.a) = 2 ->
            "(" \o Code(x.a[1]) \o ") " \o Symbol(x) \o " ("
                \o Code(x.a[2]) \o ")"

Spaces(n) == Text([k \in 1..n |-> " "], "")

RECURSIVE Lines(_, _, _)
Line(x, level, tab) ==
    Spaces(level * tab) \o
    (CASE x.k \in Expressions -> Code(x) \o "\n"
       [] x.k = "assign" -> Code(x.a[1]) \o " = " \o Code(x.a[2]) \o "\n"
       [] x.k \in {"if", "while"} ->
            x.k \o " " \o Code(x.a[1]) \o ":\n" \o Lines(x.b[1], level + 1, tab)
                \o (IF x.b[2] = <<>> THEN ""
                    ELSE Spaces(level * tab) \o "else:\n"
                            \o Lines(x.b[2], level + 1, tab)))
Lines(block, level, tab) ==
    Text([k \in 1..Len(block) |-> Line(block[k], level, tab)], "")

ModuleText(program, tab) == Lines(program, 0, tab)

(***************************************************************************)
(* Names. What happens to names, in order: <<what, name, id>>.             *)
(***************************************************************************)
RECURSIVE Uses(_)
Uses(x) ==
    IF x.k = "name" THEN <<<<"use", x.n, x.id>>>>
    ELSE Concat([k \in 1..Len(x.a) |-> Uses(x.a[k])])

Push == <<"push", "", 0>>
Pop == <<"pop", "", 0>>

RECURSIVE Events(_)
StatementEvents(x) ==
    CASE x.k \in Expressions -> Uses(x)
      [] x.k = "assign" ->
            Uses(x.a[2]) \o <<<<"define", x.a[1].n, x.a[1].id>>>>
      [] x.k \in {"if", "while"} ->
            Uses(x.a[1]) \o <<Push>> \o Events(x.b[1]) \o <<Pop>>
                         \o <<Push>> \o Events(x.b[2]) \o <<Pop>>
Events(block) == Concat([k \in 1..Len(block) |-> StatementEvents(block[k])])

\* The definition that is visible at event i: the last one of the name in a
\* scope that is not yet left.
Level(ev, i) ==
    Cardinality({k \in 1..i: ev[k][1] = "push"}) -
    Cardinality({k \in 1..i: ev[k][1] = "pop"})

Visible(ev, level, i) ==
    LET all == {j \in 1..(i - 1):
                    /\ ev[j][1] = "define" /\ ev[j][2] = ev[i][2]
                    /\ \A k \in j..i: level[k] >= level[j]}
    IN IF all = {} THEN 0 ELSE CHOOSE j \in all: \A k \in all: k <= j

Bindings(program) ==
    LET ev == Events(program)
        level == [i \in 1..Len(ev) |-> Level(ev, i)]
        bound == [i \in 1..Len(ev) |-> IF ev[i][1] = "use"
                                       THEN Visible(ev, level, i) ELSE 0]
    IN [ev |-> ev, level |-> level, bound |-> bound]

\* Definitions of, and uses of, the name of event i.
Ids(ev, indices) == [k \in 1..Len(indices) |-> ev[indices[k]][3]]
Definitions(b, i) ==
    IF b.ev[i][1] = "define" THEN <<b.ev[i][3]>>
    ELSE IF b.bound[i] = 0 THEN <<>> ELSE <<b.ev[b.bound[i]][3]>>
UsesOf(b, i) ==
    Ids(b.ev, SelectSeq([k \in 1..Len(b.ev) |-> k],
                        LAMBDA k: b.ev[k][1] = "use" /\ b.bound[k] = i))

Inputs(b) ==
    LET free(k) == b.ev[k][1] = "use" /\ b.bound[k] = 0
        first(k) == \A m \in 1..(k - 1): ~(free(m) /\ b.ev[m][2] = b.ev[k][2])
        is == SelectSeq([k \in 1..Len(b.ev) |-> k],
                        LAMBDA k: free(k) /\ first(k))
    IN [k \in 1..Len(is) |-> b.ev[is[k]][2]]

Outputs(b) ==
    LET global(k) == b.ev[k][1] = "define" /\ b.level[k] = 0
        last(k) == \A m \in (k + 1)..Len(b.ev):
                        ~(global(m) /\ b.ev[m][2] = b.ev[k][2])
    IN Ids(b.ev, SelectSeq([k \in 1..Len(b.ev) |-> k],
                           LAMBDA k: global(k) /\ last(k)))

(***************************************************************************)
(* Control flow. What is done after each other is a chain of steps. Each   *)
(* is entered at a vertex and left at a vertex (or not left: stop).        *)
(* Functions: <<name, node>>.                                              *)
(***************************************************************************)
Step(id) == [in |-> id, out |-> id, stop |-> FALSE]
Through(in, out) == [in |-> in, out |-> out, stop |-> FALSE]
Stop(id) == [in |-> id, out |-> id, stop |-> TRUE]

Links(chain) ==
    Concat([k \in 1..(Len(chain) - 1) |->
        IF chain[k].stop THEN <<>>
        ELSE <<<<chain[k].out, chain[k + 1].in>>>>])

Callee(functions, name) ==
    LET is == {k \in 1..Len(functions): functions[k][1] = name}
    IN IF is = {} THEN <<>>
       ELSE <<functions[CHOOSE k \in is: \A m \in is: m <= k][2]>>

RECURSIVE Evaluate(_, _)
EvaluateAll(xs, functions) ==
    Concat([k \in 1..Len(xs) |-> Evaluate(xs[k], functions)])
Evaluate(x, functions) ==
    LET callee == IF x.k = "call" THEN Callee(functions, x.n) ELSE <<>>
    IN EvaluateAll(x.a, functions) \o <<Step(x.id)>>
        \o (IF callee = <<>> THEN <<>>
            ELSE <<Through(callee[1].id, -callee[1].s[1])>>)

Chain(x, functions) ==
    CASE x.k \in Expressions -> Evaluate(x, functions)
      [] x.k = "assign" -> Evaluate(x.a[2], functions)
                               \o Evaluate(x.a[1], functions) \o <<Step(x.id)>>
      [] x.k = "if" -> Evaluate(x.a[1], functions)
                           \o <<Through(x.id, -x.id)>>
      [] x.k = "ret" -> EvaluateAll(x.a, functions) \o <<Stop(x.id)>>
      [] x.k = "def" -> <<>>

Functions(block) ==
    LET defs == SelectSeq(block, LAMBDA x: x.k = "def")
    IN [k \in 1..Len(defs) |-> <<defs[k].n, defs[k]>>]

RECURSIVE Flow(_, _, _, _, _)
\* Of a block with its scope, between what comes before and after it.
Flow(before, block, scope, after, functions) ==
    LET all == functions \o Functions(block)
        chain == before \o <<Step(scope)>>
                    \o Concat([k \in 1..Len(block) |-> Chain(block[k], all)])
                    \o <<Step(-scope)>> \o after
        inner(x) ==
            CASE x.k = "if" ->
                    Flow(<<Step(x.id)>>, x.b[1], x.s[1], <<Step(-x.id)>>, all)
                    \o (IF x.b[2] = <<>> THEN <<>>
                        ELSE Flow(<<Step(x.id)>>, x.b[2], x.s[2],
                                  <<Step(-x.id)>>, all))
              [] x.k = "ret" -> <<<<x.id, -scope>>>>
              [] OTHER -> <<>>
        \* A function sees those defined before it.
        defs == SelectSeq(block, LAMBDA x: x.k = "def")
        function(k) ==
            LET seen == functions \o SubSeq(Functions(block), 1, k - 1)
                x == defs[k]
            IN Flow(<<Step(x.id)>> \o EvaluateAll(x.a, seen), x.b[1], x.s[1],
                    <<>>, seen)
    IN Links(chain)
        \o Concat([k \in 1..Len(block) |-> inner(block[k])])
        \o Concat([k \in 1..Len(defs) |-> function(k)])

Edges(program) ==
    Flow(<<Step(0)>>, program, 1000, <<Step(0)>>, <<>>)

Successors(edges, id) ==
    LET own == SelectSeq(edges, LAMBDA e: e[1] = id)
    IN [k \in 1..Len(own) |-> own[k][2]]

(***************************************************************************)
(* Types. Known names and operations, by name.                             *)
(***************************************************************************)
Undefined == [d |-> {}, v |-> {}]
AsType(t) == [d |-> T!Range(t.d), v |-> T!Range(t.v)]
NumberType == [int8 |-> "Int8", int16 |-> "Int16", int32 |-> "Int32",
               int64 |-> "Int64", uint8 |-> "Uint8", uint16 |-> "Uint16",
               uint32 |-> "Uint32", uint64 |-> "Uint64",
               float32 |-> "Float32", float64 |-> "Float64"]
Constant(v) == [d |-> {"Constant"}, v |-> {v}]

\* known: sequence of <<name, type>>; the last one counts.
TypeOfName(known, name) ==
    LET is == {k \in 1..Len(known): known[k][1] = name}
    IN IF is = {} THEN Undefined
       ELSE known[CHOOSE k \in is: \A m \in is: m <= k][2]

Operation(ops, name) ==
    LET is == {k \in 1..Len(ops): ops[k].n = name}
    IN IF is = {} THEN <<>> ELSE <<ops[CHOOSE k \in is: TRUE]>>

RECURSIVE TypeOf(_, _, _)
TypeOf(x, known, ops) ==
    CASE x.k = "name" -> TypeOfName(known, x.n)
      [] x.k = "num" -> Constant(NumberType[x.n])
      [] x.k = "str" -> Constant("String")
      [] x.k \in {"call", "op"} ->
            LET op == Operation(ops, x.n)
            IN IF op = <<>> \/ Len(op[1].parameters) # Len(x.a) THEN Undefined
               ELSE IF op[1].as = 0 THEN AsType(op[1].otherwise)
               ELSE TypeOf(x.a[op[1].as], known, ops)

Has(x, ops) == x.k \in {"call", "op"} /\ Operation(ops, x.n) # <<>>

\* <<id, text of the type, whether the operation is known>>
RECURSIVE Annotations(_, _, _)
Annotations(x, known, ops) ==
    Concat([k \in 1..Len(x.a) |-> Annotations(x.a[k], known, ops)])
    \o <<<<x.id, T!TypeText(TypeOf(x, known, ops)), Has(x, ops)>>>>

NoError == [kind |-> "", n |-> "", line |-> -1, col |-> -1, required |-> -1,
            provided |-> -1, argument |-> -1, required_types |-> "",
            provided_types |-> ""]
Wrong(kind, n, p) == [NoError EXCEPT !.kind = kind, !.n = n, !.line = p[1],
                                     !.col = p[2]]

\* What is wrong with an expression (at position p), in order.
RECURSIVE Errors(_, _, _, _)
Errors(x, p, known, ops) ==
    LET own ==
        CASE x.k = "name" ->
                IF T!TypeDefined(TypeOf(x, known, ops)) THEN <<>>
                ELSE <<Wrong("UndefinedIdentifier", x.n, p)>>
          [] x.k \in {"call", "op"} ->
                LET op == Operation(ops, x.n)
                IN IF op = <<>> THEN <<Wrong("UndefinedOperation", x.n, p)>>
                   ELSE IF Len(op[1].parameters) # Len(x.a)
                   THEN <<[Wrong("WrongNumberOfArguments", x.n, p) EXCEPT
                            !.required = Len(op[1].parameters),
                            !.provided = Len(x.a)]>>
                   ELSE LET type(k) == TypeOf(x.a[k], known, ops)
                            asked(k) == AsType(op[1].parameters[k])
                        IN Concat([k \in 1..Len(x.a) |->
                            IF T!Satisfied(asked(k), type(k)) THEN <<>>
                            ELSE <<[Wrong("WrongTypeOfArgument", x.n, p) EXCEPT
                                    !.argument = k,
                                    !.required_types = T!TypeText(asked(k)),
                                    !.provided_types = T!TypeText(type(k))]>>])
          [] OTHER -> <<>>
    IN Concat([k \in 1..Len(x.a) |-> Errors(x.a[k], x.a[k].p, known, ops)])
        \o own

\* Of a program: annotations, what is left on the stack, errors, known names.
RECURSIVE Analysis(_, _, _)
Analyse(s, x, ops) ==
    CASE x.k \in Expressions ->
            [s EXCEPT !.found = @ \o Annotations(x, s.known, ops),
                      !.stack = Append(@, T!TypeText(TypeOf(x, s.known, ops))),
                      !.errors = @ \o Errors(x, x.q, s.known, ops)]
      [] x.k = "assign" ->
            LET type == TypeOf(x.a[2], s.known, ops)
                target == x.a[1]
            IN [s EXCEPT
                    !.found = @ \o Annotations(x.a[2], s.known, ops)
                                \o <<<<target.id, T!TypeText(type), FALSE>>>>,
                    !.known = Append(@, <<target.n, type>>),
                    !.errors = @ \o Errors(x.a[2], x.a[2].p, s.known, ops)
                        \o (IF T!TypeDefined(type) THEN <<>>
                            ELSE <<Wrong("UndefinedIdentifier", target.n,
                                         target.p)>>)]
      [] x.k \in {"if", "while"} ->
            LET c == x.a[1]
                t == [s EXCEPT
                        !.found = @ \o Annotations(c, s.known, ops),
                        !.stack = Append(@,
                                         T!TypeText(TypeOf(c, s.known, ops))),
                        !.errors = @ \o Errors(c, c.p, s.known, ops)]
            IN Analysis(Analysis(t, x.b[1], ops), x.b[2], ops)
Analysis(s, block, ops) ==
    FoldLeft(LAMBDA t, x: Analyse(t, x, ops), s, block)

Analysed(program, globals, ops) ==
    Analysis([found |-> <<>>, stack |-> <<>>, errors |-> <<>>,
              known |-> [k \in 1..Len(globals) |->
                            <<globals[k].n, AsType(globals[k].t)>>]],
             program, ops)
=============================================================================

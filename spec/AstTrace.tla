------------------------------ MODULE AstTrace -------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

A == INSTANCE Ast

Trace == ndJsonDeserialize(IOEnv.TRACE)

OkParse(e) ==
    LET tree == A!ModuleTree(e.source, e.program)
    IN e.tree = tree /\ e.again = tree /\ e.kept /\ e.separate

OkMalformed(e) ==
    e.outcome = "ParseError" /\ e.sourced /\ e.placed /\ e.messaged

OkText(e) ==
    LET text == A!ModuleText(e.program, e.tab)
    IN /\ e.text = text /\ e.again = text
       /\ e.by_default = A!ModuleText(e.program, 4)
       /\ e.tree = A!ModuleTree("m", e.program)

OkNames(e) ==
    LET b == A!Bindings(e.program)
        named == {i \in 1..Len(b.ev): b.ev[i][1] \in {"use", "define"}}
    IN /\ Len(e.found) = Cardinality(named)
       /\ \A i \in named: \E k \in 1..Len(e.found):
            /\ e.found[k].id = b.ev[i][3]
            /\ e.found[k].definitions = A!Definitions(b, i)
            /\ e.found[k].uses = A!UsesOf(b, i)
       /\ e.inputs = A!Inputs(b)
       /\ e.outputs = A!Outputs(b)
       /\ e.left

OkThreads(e) ==
    LET edges == A!Edges(e.program)
    IN \A k \in 1..Len(e.found):
            e.found[k].to = A!Successors(edges, e.found[k].id)

Reversed(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]

OkTypes(e) ==
    LET a == A!Analysed(e.program, e.globals, e.operations)
    IN /\ Len(e.found) = Len(a.found)
       /\ \A i \in 1..Len(a.found): \E k \in 1..Len(e.found):
            /\ e.found[k].id = a.found[i][1]
            /\ e.found[k].t = a.found[i][2]
            /\ e.found[k].has = a.found[i][3]
       /\ e.stack = Reversed(a.stack)
       /\ e.error = IF a.errors = <<>> THEN A!NoError ELSE a.errors[1]
       /\ e.left

Ok(e) ==
    /\ e.crash = 0
    /\ CASE e.op = "parse" -> OkParse(e)
         [] e.op = "malformed" -> OkMalformed(e)
         [] e.op = "text" -> OkText(e)
         [] e.op = "names" -> OkNames(e)
         [] e.op = "threads" -> OkThreads(e)
         [] e.op = "types" -> OkTypes(e)

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================

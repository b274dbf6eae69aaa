---------------------------- MODULE SessionTrace -----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

LOCAL INSTANCE SequencesExt
S == INSTANCE Session
E == INSTANCE Errors

Trace == ndJsonDeserialize(IOEnv.TRACE)
Members(s) == {s[k]: k \in 1..Len(s)}

Cleared(s, x) == IF x.clear THEN [s EXCEPT !.stack = <<>>] ELSE s

\* After a failure, the stack is cleared.
Tidy(s) == IF S!Failed(s) THEN [s EXCEPT !.stack = <<>>] ELSE s

After(e, s, x) ==
    LET t == Cleared(s, x)
    IN Tidy(IF x.check THEN S!Check(t, x.program, x.sources, e.operations)
       ELSE IF e.op = "interpret"
       THEN S!Interpret(t, x.program, x.sources, Members(x.syncs), e.operations)
       ELSE S!Execute(t, x.program, x.sources, Members(x.syncs), e.operations))

VarsOf(s) == {[n |-> s.vars[k][1], v |-> S!Get(s.vars, s.vars[k][1])]:
                k \in 1..Len(s.vars)}

Agrees(e, s, x) ==
    /\ x.log = s.log
    /\ x.stack = s.stack
    /\ x.outcome = s.outcome
    /\ e.op = "execute" => /\ Members(x.vars) = VarsOf(s)
                           /\ Len(x.vars) = Cardinality(VarsOf(s))

OkSession(e) ==
    FoldLeft(LAMBDA r, x:
                IF ~r[2] THEN r
                ELSE LET s == After(e, r[1], x) IN <<s, Agrees(e, s, x)>>,
             <<S!Start, TRUE>>, e.steps)[2]

\* What the parser refuses, as the interpreter reports it. Text that is read
\* from the input is parsed as any text.
OkRefused(e) ==
    LET place == <<e.source, ToString(e.line), ToString(e.col)>>
        refusal ==
            CASE e.kind = "parse" ->
                    "ParseError " \o E!Text("ERROR_PARSING",
                                            Append(place, e.text))
              [] e.kind = "statement" ->
                    "ParseError " \o E!Text("ERROR_PARSING_STATEMENT",
                                            place \o <<e.statement, e.text>>)
              [] e.kind = "construct" ->
                    "ParseError " \o E!Text("ERROR_PARSING", Append(place,
                        E!Text("UNSUPPORTED_LANGUAGE_CONSTRUCT", <<e.text>>)))
              [] e.kind = "io" ->
                    "IOError " \o E!Text("IO_ERROR", <<e.source,
                        IF e.missing THEN "No such file or directory"
                        ELSE "Permission denied">>)
              [] e.kind = "document" -> e.expected
    IN /\ (e.kind = "io" /\ e.how = "string") \/ e.outcome = refusal
       /\ e.again = "ok"

Ok(e) ==
    /\ e.crash = 0
    /\ IF e.op = "refused" THEN OkRefused(e) ELSE OkSession(e)

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================

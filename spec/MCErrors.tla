------------------------------ MODULE MCErrors ------------------------------
(* All messages about a few values: what they keep apart.                    *)
EXTENDS Errors

CONSTANTS Values

VARIABLES id, args
vars == <<id, args>>

Init == id \in Ids /\ args \in [1..Arity(id) -> Values]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* What happened and what it is about can be told from the message.
Apart == \A other \in Ids: \A a \in [1..Arity(other) -> Values]:
    Text(id, args) = Text(other, a) => other = id /\ a = args

Kinds == {"io", "composed", "parse", "statement", "validate", "plain"}
Errors == [kind: Kinds, name: Values, line: {"1", "2"}, col: {"1"},
           statement: Values, reason: Values, id: {id}, args: {args}]

\* Two errors with the same message have the same place and reason.
Told == \A e, f \in Errors:
    (e.kind = f.kind /\ Message(e) = Message(f)) =>
        /\ e.kind # "plain" => e.name = f.name
        /\ e.kind \in {"io", "parse", "statement", "validate"} =>
               e.reason = f.reason
        /\ e.kind \in {"parse", "statement", "validate"} =>
               e.line = f.line
        /\ e.kind = "statement" => e.statement = f.statement

\* An error is caught as what it is, and as everything that is more general.
General == \A k \in Kinds:
    /\ Caught(k)[5] /\ Caught(k)[6]
    /\ (Caught(k)[2] \/ Caught(k)[3]) = Caught(k)[4]
    /\ Cardinality({n \in 1..3: Caught(k)[n]}) <= 1
=============================================================================

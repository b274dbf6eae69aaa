----------------------------- MODULE ErrorsTrace -----------------------------
(* Recorded messages and errors, against Errors.                             *)
EXTENDS Errors, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

TemplateOk(e) ==
    /\ e.n = Arity(e.id)
    /\ \A t \in {e.shared, e.own, e.thrown}: t = Text(e.id, Places)

TextOk(e) ==
    /\ Len(e.args) = Arity(e.id)
    /\ e.text = Text(e.id, e.args)

\* However it is caught, copied, moved or assigned: it has its message.
ErrorOk(e) ==
    /\ e.message = Message(e)
    /\ e.caught = Caught(e.kind)
    /\ e.texts = [k \in 1..6 |-> IF Caught(e.kind)[k] THEN Message(e) ELSE ""]
    /\ e.copies = [k \in 1..5 |-> Message(e)]

Ok(e) ==
    /\ e.crash = 0
    /\ CASE e.op = "text" -> TextOk(e)
         [] e.op = "template" -> TemplateOk(e)
         [] e.op = "error" -> ErrorOk(e)

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================

------------------------------- MODULE IoTrace -------------------------------
(* What the code did with files, judged by Io.                                *)
EXTENDS Io, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

OkRaster(e) ==
    /\ e.error = "" /\ e.error2 = ""
    /\ e.found = e.type
    /\ e.values = e.cells
    /\ e.mask = Marked(e.cells, e.has, e.nodata, e.mark, e.prior)
    /\ e.kept /\ e.closed /\ e.open = 0

\* A file of a raster that is not what is asked for.
OkOther(e) ==
    LET wrong == CASE e.what = "bands" -> "Does not contain data: "
                   [] e.what = "cut" -> Unreadable
                   [] e.kind # e.type -> "Unsupported value type: "
                   [] OTHER -> ""
    IN /\ IF wrong = "" THEN e.error = ""
          ELSE StartsWith(e.error, Error(e.file, wrong))
       /\ e.valueskept = (wrong # "") \/ e.what = "cut"
       /\ e.maskkept /\ e.opened /\ e.closed /\ e.open = 0
       /\ IF e.what = "bands" THEN StartsWith(e.typeerror, Error(e.file, wrong))
          ELSE e.typeerror = ""
       /\ e.what = "values" =>
            e.found = (IF e.kind = "complex" THEN "other" ELSE e.kind)

OkUnreadable(e) ==
    /\ e.exists = Exists(e.what)
    /\ e.error = Refused(e.api, e.what, e.file)
    /\ e.kept /\ e.closed /\ e.open = 0

OkVariables(e) ==
    LET text == e.has /\ e.form \in Texts
        wrong == Wrong(text, e.conventions, e.variables, e.path)
        listed == Conventions(text, e.conventions)
    IN /\ IF wrong = ""
          THEN e.error = "" /\ e.value = Variable(e.variables, e.path[1]).value
          ELSE StartsWith(e.error, Error(e.file, wrong)) /\ e.value = "17.5"
       /\ e.direct = (IF e.wanted \in Names(e.variables)
                          /\ IsScalar(Variable(e.variables, e.wanted))
                          /\ Variable(e.variables, e.wanted).type = "float64"
                      THEN Variable(e.variables, e.wanted).value ELSE "")
       /\ e.open = 0 /\ e.open2 = 0
       /\ [k \in DOMAIN e.listed |-> e.listed[k].c] = listed
       /\ e.conforms = Conforms(text, e.conventions)
       /\ e.hasfound = e.has
       /\ e.otherfound = e.hasother
       /\ e.titlefound = (IF e.hasother THEN e.title ELSE <<>>)
       /\ ~e.bogus
       /\ Len(e.facts) = 6
       /\ \A k \in DOMAIN e.facts:
            LET f == e.facts[k]
                there == f.name \in Names(e.variables)
            IN /\ f.there = there
               /\ f.scalar = (there /\ IsScalar(Variable(e.variables, f.name)))
               /\ f.type = (IF there THEN Variable(e.variables, f.name).type
                            ELSE "")

OkHandles(e) ==
    /\ Len(e.seen) = Len(e.steps)
    /\ \A k \in DOMAIN e.steps:
        LET before == After(NoHandles(3), SubSeq(e.steps, 1, k - 1))
            s == Do(before, e.steps[k])
        IN /\ Can(before, e.steps[k])
           /\ e.seen[k].names = Files(s)
           /\ e.seen[k].open = Cardinality(s.open)
    /\ e.open = 0

OkClients(e) ==
    /\ Len(e.present) = Len(e.steps) /\ Len(e.readable) = Len(e.steps)
    /\ \A k \in DOMAIN e.steps:
        LET live == Live({}, SubSeq(e.steps, 1, k)) # {}
        IN e.present[k] = live /\ e.readable[k] = live
    /\ ~e.left /\ e.open = 0

Ok(e) ==
    /\ e.crash = 0
    /\ CASE e.op = "raster" -> OkRaster(e)
         [] e.op = "other" -> OkOther(e)
         [] e.op = "unreadable" -> OkUnreadable(e)
         [] e.op = "variables" -> OkVariables(e)
         [] e.op = "handles" -> OkHandles(e)
         [] e.op = "clients" -> OkClients(e)
         [] OTHER -> FALSE

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================

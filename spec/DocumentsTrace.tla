---------------------------- MODULE DocumentsTrace ----------------------------
(* Recorded readings of documents, against Documents.                        *)
EXTENDS Documents, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

Starts(text, prefix) ==
    /\ Len(text) >= Len(prefix)
    /\ SubSeq(text, 1, Len(prefix)) = prefix

TracksOk(e) ==
    IF e.state # "ok"
    THEN /\ e.kind = "IOError"
         /\ e.error = Text("IO_ERROR", <<e.file,
                Text(IF e.state = "missing" THEN "DOES_NOT_EXIST"
                     ELSE "CANNOT_BE_READ", <<>>)>>)
    ELSE LET line == TracksRefused(e.version, e.tokens, 1, <<>>)
         IN IF e.as # e.version
            THEN /\ e.kind = "ParseError"
                 /\ Starts(e.error, "Error parsing " \o e.file \o ":")
            ELSE IF line # 0
            THEN /\ e.kind = "ParseError"
                 /\ Starts(e.error, "Error parsing " \o e.file \o ":"
                               \o ToString(line) \o ":")
            ELSE /\ e.kind = "read" /\ e.error = ""
                 /\ e.result = Tracks(e.version, e.tokens)

DistributionOk(e) ==
    LET line == DistributionRefused(e.ns, e.tokens, 1, -1)
    IN IF line # 0
       THEN e.kind = "ParseError" /\ e.source = "<string>" /\ e.line = line
       ELSE LET n == Variance(e.tokens)
                d == Deviation(n)
            IN /\ e.kind = "read" /\ e.mean = Mean(e.tokens)
               /\ e.deviation = d /\ e.exact = (d * d = n)

\* A normal distribution has its mean and deviation; samples without deviation
\* are the mean.
NormalOk(e) ==
    /\ \A x \in {e.first, e.moved, e.assigned}: x = <<e.m, e.d>>
    /\ e.same /\ e.all = (e.d = 0)

Ok(e) ==
    /\ e.crash = 0
    /\ CASE e.op = "tracks" -> TracksOk(e)
         [] e.op = "distribution" -> DistributionOk(e)
         [] e.op = "normal" -> NormalOk(e)

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================

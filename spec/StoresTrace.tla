----------------------------- MODULE StoresTrace -----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

LOCAL INSTANCE SequencesExt
S == INSTANCE Stores
E == INSTANCE Errors

Trace == ndJsonDeserialize(IOEnv.TRACE)

Error(name, id) == "IOError " \o E!Text("IO_ERROR", <<name, E!Text(id, <<>>)>>)
Lacks(name, id, path) ==
    "IOError " \o E!Text("IO_ERROR", <<name, E!Text(id, <<path>>)>>)

TypeName == [uint8 |-> "Uint8", uint16 |-> "Uint16", uint32 |-> "Uint32",
             uint64 |-> "Uint64", int8 |-> "Int8", int16 |-> "Int16",
             int32 |-> "Int32", int64 |-> "Int64", float32 |-> "Float32",
             float64 |-> "Float64"]

\* By way of the drivers, reasons get lost.
Overall(mode) ==
    IF mode = "read" THEN "CANNOT_BE_READ" ELSE "CANNOT_BE_WRITTEN"

PutMode(file, x) ==
    IF x.how = "write" THEN S!PutMode(file) ELSE "overwrite"

After(s, x) ==
    CASE x.do = "open" ->
            IF S!Refusal(s.files[x.file + 1], x.mode) = ""
            THEN S!Open(s, x.file + 1, x.mode) ELSE s
      [] x.do = "close" -> S!Close(s, x.h + 1)
      [] x.do = "write" -> S!Write(s, x.h + 1, x.path, x.type, x.value)
      [] x.do = "exchange" /\ x.how \in {"write", "sync"} ->
            LET file == s.files[x.file + 1]
                mode == PutMode(file, x)
            IN IF S!Refusal(file, mode) # "" THEN s
               ELSE S!Once(s, x.file + 1, mode, x.path, x.type, x.value)
      [] OTHER -> s

\* Values are written and read by operations, and by the sources and the syncs
\* of programs.
AgreesExchange(e, s, x) ==
    LET name == e.files[x.file + 1]
        file == s.files[x.file + 1]
        there == S!HasAttribute(file, x.path)
        a == S!Attribute(file, x.path)
    IN IF x.how \in {"write", "sync"}
       THEN x.result = IF S!Refusal(file, PutMode(file, x)) = "" THEN "ok"
                       ELSE Error(name, "CANNOT_BE_WRITTEN")
       ELSE IF S!Refusal(file, "read") # ""
       THEN x.result = Error(name, "CANNOT_BE_READ")
       ELSE IF ~there
       THEN x.result = Lacks(name, IF x.how = "read"
                    THEN "DOES_NOT_CONTAIN_DATA"
                    ELSE "DOES_NOT_CONTAIN_ATTRIBUTE", x.text)
       ELSE /\ x.result = "ok" /\ x.type = a.type /\ x.value = a.value
            /\ x.how = "source" => x.texts = "Constant/" \o TypeName[a.type]

AgreesOpen(e, s, x) ==
    LET name == e.files[x.file + 1]
        refusal == S!Refusal(s.files[x.file + 1], x.mode)
    IN IF refusal = ""
       THEN x.opened /\ x.result = "ok" /\ x.name = name /\ x.now = x.mode
       ELSE /\ ~x.opened
            /\ IF x.how \in {"dataset", "driver"}
               THEN x.result = Error(name, refusal)
               ELSE \/ x.result = Error(name, Overall(x.mode))
                    \/ /\ s.files[x.file + 1].used # "no"
                       /\ x.result = Error(name, refusal)

\* s: before the step.
AgreesStep(e, s, x) ==
    CASE x.do = "open" -> AgreesOpen(e, s, x)
      [] x.do = "close" -> TRUE
      [] x.do = "can" ->
            x.can = (S!Refusal(s.files[x.file + 1], x.mode) = "")
      [] x.do = "write" -> x.result = "ok"
      [] x.do = "exchange" -> AgreesExchange(e, s, x)
      [] OTHER ->
            LET f == s.handles[x.h + 1].file
                name == e.files[f]
                file == s.files[f]
            IN CASE x.do = "read" ->
                    IF S!HasAttribute(file, x.path)
                    THEN LET a == S!Attribute(file, x.path)
                         IN /\ x.result = "ok"
                            /\ x.type = a.type /\ x.value = a.value
                    ELSE x.result = Lacks(name, "DOES_NOT_CONTAIN_ATTRIBUTE",
                                          x.text)
              [] x.do = "type" ->
                    IF S!HasAttribute(file, x.path)
                    THEN /\ x.result = "ok"
                         /\ x.type = "Constant/" \o
                                     TypeName[S!Attribute(file, x.path).type]
                    ELSE x.result = Lacks(name, "DOES_NOT_CONTAIN_ATTRIBUTE",
                                          x.text)
              [] x.do = "feature" -> x.there = S!HasFeature(file, x.path)
              [] x.do = "attribute" -> x.there = S!HasAttribute(file, x.path)
              [] x.do = "counts" ->
                    LET top == S!FeaturesIn(file, <<>>)
                    IN /\ x.nr = Cardinality(top)
                       /\ Len(x.names) = Cardinality(top)
                       /\ {x.names[k]: k \in 1..Len(x.names)} =
                                {p[1]: p \in top}
                       /\ x.there = S!HasFeature(file, x.path)
                       /\ x.there =>
                            /\ x.features =
                                Cardinality(S!FeaturesIn(file, x.path))
                            /\ x.attributes =
                                Cardinality(S!AttributesIn(file, x.path))
              [] x.do = "missing" ->
                    IF S!HasFeature(file, x.path) THEN x.result = "ok"
                    ELSE x.result = Lacks(name, "DOES_NOT_CONTAIN_FEATURE",
                                          x.text)

\* What is open is what the datasets hold. Asking creates and removes no files.
AgreesAfter(t, x) ==
    /\ x.open = Cardinality(S!OpenHandles(t))
    /\ \A f \in 1..Len(x.files): x.files[f] = S!IsFile(t.files[f])

OkStore(e) ==
    /\ e.open = 0
    /\ FoldLeft(LAMBDA r, x:
                IF ~r[2] THEN r
                ELSE LET t == After(r[1], x)
                     IN <<t, AgreesStep(e, r[1], x) /\ AgreesAfter(t, x)>>,
             <<S!Stores(e.kinds), TRUE>>, e.steps)[2]

\* Which drivers are asked, and which one opens the dataset.
OkAsked(e) ==
    LET names == {e.names[k]: k \in 1..Len(e.names)}
        Can(n) == \E k \in 1..Len(e.names): e.names[k] = n /\ e.can[k]
        asked == S!Asked(names, e.names, e.format)
        able == {k \in 1..Len(asked): Can(asked[k])}
        Line(do, n) == do \o " " \o n \o " " \o e.name \o " " \o e.mode
        Cans(n) == [k \in 1..n |-> Line("can", asked[k])]
    IN IF e.format # "" /\ e.format \notin names
       THEN /\ e.log = <<>>
            /\ e.result = Lacks(e.name, "NO_SUCH_DRIVER", e.format)
       ELSE IF able = {}
       THEN /\ e.log = Cans(Len(asked)) /\ ~e.exists
            /\ e.result = IF e.open THEN Error(e.name, Overall(e.mode))
                          ELSE "ok"
       ELSE LET first == CHOOSE k \in able: \A m \in able: k <= m
            IN /\ e.exists /\ e.result = "ok"
               /\ e.by = IF e.open THEN asked[first] ELSE ""
               /\ e.log = Cans(first) \o
                    IF e.open THEN <<Line("open", asked[first])>> ELSE <<>>

\* Files and directories, found by way of links, or not.
OkPaths(e) ==
    LET file == e.kind \in {"file", "link", "chain"}
        directory == e.kind \in {"directory", "dirlink"}
    IN /\ e.exists = file
       /\ e.file = (file /\ e.writable)
       /\ e.directory = (directory /\ e.writable)
       /\ e.here = e.writable
       /\ file => e.read = e.text

\* There are drivers for as long as there are clients.
OkClients(e) ==
    \A k \in 1..Len(e.steps):
        LET x == e.steps[k]
            n == FoldLeft(LAMBDA r, y: IF y.more THEN r + 1 ELSE r - 1, 0,
                          SubSeq(e.steps, 1, k))
        IN IF n = 0 THEN x.nr = 0
           ELSE /\ x.named /\ x.same
                /\ x.fern = (e.kind # "gdal")
                /\ x.tiff = (e.kind # "fern") /\ x.ascii = x.tiff
                /\ (x.others > 0) = (e.kind # "fern")

\* No driver knows about what is not there.
OkEveryone(e) ==
    /\ e.wrong = <<>> /\ ~e.exists /\ ~e.exists_too
    /\ e.read = Error(e.name, "CANNOT_BE_READ")
    /\ e.update = Error(e.name, "CANNOT_BE_WRITTEN")

\* Rasters. s: "none", "junk", or <<the raster>>.
AgreesRaster(e, s, x) ==
    LET refusal ==
            IF x.mode = "overwrite" THEN ""
            ELSE IF s = <<"none">> THEN "DOES_NOT_EXIST"
            ELSE IF s = <<"junk">> THEN IF x.mode = "read" THEN "CANNOT_BE_READ"
                                        ELSE "CANNOT_BE_WRITTEN"
            ELSE ""
        now == IF x.write THEN x.now ELSE s[2]
    IN /\ x.can = (refusal = "")
       /\ x.open = 0
       /\ IF refusal # "" THEN x.result = Error(e.name, refusal)
          ELSE /\ x.result = "ok"
               /\ x.names = <<e.stem>> /\ x.nr = 1
               /\ x.has = <<TRUE, TRUE, FALSE, FALSE, FALSE, FALSE>>
               /\ x.write => x.outcome = "ok"
               /\ x.read = now /\ x.whole = now /\ x.opened
               /\ x.text = "StaticField/" \o e.type
               /\ x.errors = <<Lacks(e.name, "DOES_NOT_CONTAIN_ATTRIBUTE", "x"),
                               Lacks(e.name, "DOES_NOT_CONTAIN_FEATURE", "x"),
                               Lacks(e.name, "DOES_NOT_CONTAIN_ATTRIBUTE",
                                     "/x/x")>>
               /\ x.place = [good |-> TRUE, west |-> now.west,
                             width |-> now.cell, north |-> now.north,
                             height |-> -now.cell]

OkRaster(e) ==
    FoldLeft(LAMBDA r, x:
                IF ~r[2] THEN r
                ELSE <<IF x.write THEN <<"raster", x.now>> ELSE r[1],
                       AgreesRaster(e, r[1], x)>>,
             <<IF e.junk THEN <<"junk">> ELSE <<"none">>, TRUE>>, e.steps)[2]

Ok(e) ==
    /\ e.crash = 0
    /\ CASE e.op = "store" -> OkStore(e)
         [] e.op = "asked" -> OkAsked(e)
         [] e.op = "paths" -> OkPaths(e)
         [] e.op = "clients" -> OkClients(e)
         [] e.op = "everyone" -> OkEveryone(e)
         [] e.op = "raster" -> OkRaster(e)

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================

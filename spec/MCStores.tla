------------------------------ MODULE MCStores -------------------------------
(* All histories of some datasets of two files, up to a number of steps.     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxSteps, MaxHandles, Names, Deep

LOCAL INSTANCE SequencesExt
S == INSTANCE Stores

Kinds == <<"absent", "text">>
Modes == {"read", "update", "overwrite"}
Types == {"int32", "float64"}
Values == {0, 1}
FeaturePaths == {<<n>>: n \in Names} \union
                (IF Deep THEN {<<m, n>>: m \in Names, n \in Names} ELSE {})
AttributePaths == {Append(p, n): p \in FeaturePaths, n \in Names}

VARIABLES s, last, steps

vars == <<s, last, steps>>

None == [do |-> "none"]

Init == s = S!Stores(Kinds) /\ last = None /\ steps = 0

Open(f, mode) ==
    /\ Len(s.handles) < MaxHandles
    /\ S!Refusal(s.files[f], mode) = ""
    /\ s' = S!Open(s, f, mode)
    /\ last' = [do |-> "open", file |-> f, mode |-> mode]

Close(h) ==
    /\ s.handles[h].open
    /\ s' = S!Close(s, h)
    /\ last' = [do |-> "close", file |-> s.handles[h].file]

Write(h, path, type, value) ==
    /\ s.handles[h].open /\ s.handles[h].mode # "read"
    /\ S!CanWrite(s.files[s.handles[h].file], path, type)
    /\ s' = S!Write(s, h, path, type, value)
    /\ last' = [do |-> "write", file |-> s.handles[h].file, path |-> path,
                type |-> type, value |-> value]

Put(f, path, type, value) ==
    LET file == s.files[f]
        mode == S!PutMode(file)
    IN /\ file.used = "no"
       /\ mode = "update" => S!CanWrite(file, path, type)
       /\ s' = S!Once(s, f, mode, path, type, value)
       /\ last' = [do |-> "write", file |-> f, path |-> path,
                   type |-> type, value |-> value]

Next ==
    /\ steps < MaxSteps
    /\ steps' = steps + 1
    /\ \/ \E f \in 1..Len(Kinds), m \in Modes: Open(f, m)
       \/ \E h \in 1..Len(s.handles): Close(h)
       \/ \E h \in 1..Len(s.handles), p \in AttributePaths, t \in Types,
             v \in Values: Write(h, p, t, v)
       \/ \E f \in 1..Len(Kinds), p \in AttributePaths, t \in Types,
             v \in Values: Put(f, p, t, v)

Files == 1..Len(Kinds)

\* Attributes are in features, and features are in features.
Tree ==
    \A f \in Files:
        /\ \A p \in S!Paths(s.files[f]) \union s.files[f].groups:
                S!Parents(p) \subseteq s.files[f].groups
        /\ s.files[f].groups \intersect S!Paths(s.files[f]) = {}

\* There is one value, of one type, at a path.
OneValue ==
    \A f \in Files: \A a, b \in s.files[f].attributes:
        a.path = b.path => a = b

\* What has been written is there.
Written ==
    last.do = "write" =>
        LET file == s.files[last.file]
            a == S!Attribute(file, last.path)
        IN /\ S!HasAttribute(file, last.path)
           /\ a.type = last.type /\ a.value = last.value
           /\ \A p \in S!Parents(last.path): S!HasFeature(file, p)
           /\ last.path \in S!AttributesIn(file, Front(last.path))

\* A file is in use when, and only when, a dataset of it is open. Nobody
\* writes what has been opened for reading first.
Used ==
    \A f \in Files:
        /\ (s.files[f].used = "no") = (S!Handles(s, f) = {})
        /\ s.files[f].used = "read" =>
            \A h \in S!Handles(s, f): s.handles[h].mode = "read"
        /\ Cardinality({h \in S!Handles(s, f):
                        s.handles[h].mode = "overwrite"}) <= 1
        /\ s.files[f].kind # "store" => s.files[f].used = "no"

\* Only writing and overwriting changes what a file is.
Kept ==
    [][\A f \in Files:
        (s'.files[f].groups # s.files[f].groups \/
         s'.files[f].attributes # s.files[f].attributes \/
         s'.files[f].kind # s.files[f].kind) =>
            /\ last'.file = f
            /\ \/ last'.do = "write"
               \/ last'.do = "open" /\ last'.mode = "overwrite" ]_vars

\* Other attributes are kept when one is written.
Others ==
    [][(last'.do = "write" /\ s.files[last'.file].kind = "store") =>
        \A a \in s.files[last'.file].attributes:
            a.path # last'.path => a \in s'.files[last'.file].attributes]_vars

\* Once it is a store, a file that is not in use can be opened in all ways.
Accessible ==
    \A f \in Files: (s.files[f].kind = "store" /\ s.files[f].used = "no") =>
        \A m \in Modes: S!Refusal(s.files[f], m) = ""
==============================================================================

------------------------------- MODULE Stores --------------------------------
(* Datasets of the language: a file is a tree of features. Attributes are    *)
(* values with a type, within features. Datasets are opened for reading, for *)
(* updating, or for overwriting what is there.                               *)
EXTENDS Integers, Sequences, FiniteSets

LOCAL INSTANCE SequencesExt

\* What a file is: something else than a store ("absent", "text", a
\* "directory", or in a directory that is not there: "nowhere"), or a "store".
\* used: how it is open already, which decides on how else it can be opened.
File(kind) == [kind |-> kind, groups |-> {}, attributes |-> {}, used |-> "no"]

Stores(kinds) ==
    [files |-> [k \in 1..Len(kinds) |-> File(kinds[k])], handles |-> <<>>]

\* Whether, and why not, a dataset can be opened.
Refusal(file, mode) ==
    IF mode = "overwrite"
    THEN IF file.kind \in {"directory", "nowhere"} \/ file.used # "no"
         THEN "CANNOT_BE_CREATED" ELSE ""
    ELSE IF file.kind \in {"absent", "directory", "nowhere"}
         THEN "DOES_NOT_EXIST"
         ELSE IF file.kind # "store" \/ (mode = "update" /\ file.used = "read")
              THEN IF mode = "read" THEN "CANNOT_BE_READ"
                   ELSE "CANNOT_BE_WRITTEN"
              ELSE ""

Used(mode) == IF mode = "read" THEN "read" ELSE "write"

\* Only called when there is no reason for refusal.
Open(s, f, mode) ==
    LET old == s.files[f]
        new == IF mode = "overwrite"
               THEN [File("store") EXCEPT !.used = "write"]
               ELSE [old EXCEPT !.used = IF @ = "no" THEN Used(mode) ELSE @]
    IN [files |-> [s.files EXCEPT ![f] = new],
        handles |-> Append(s.handles, [file |-> f, mode |-> mode,
                                       open |-> TRUE])]

Close(s, h) ==
    LET handles == [s.handles EXCEPT ![h].open = FALSE]
        f == s.handles[h].file
        more == \E k \in 1..Len(handles):
                    handles[k].open /\ handles[k].file = f
    IN [files |-> IF more THEN s.files
                  ELSE [s.files EXCEPT ![f].used = "no"],
        handles |-> handles]

\* The features on the way to a path.
Parents(path) == {SubSeq(path, 1, k): k \in 1..(Len(path) - 1)}

Paths(file) == {a.path: a \in file.attributes}

CanWrite(file, path, type) ==
    /\ Len(path) > 1
    /\ path \notin file.groups
    /\ Parents(path) \intersect Paths(file) = {}
    /\ \A a \in file.attributes: a.path = path => a.type = type

Write(s, h, path, type, value) ==
    LET f == s.handles[h].file
        new == [path |-> path, type |-> type, value |-> value]
    IN [s EXCEPT !.files[f] =
            [@ EXCEPT !.groups = @ \union Parents(path),
                      !.attributes = {a \in @: a.path # path} \union {new}]]

\* A dataset is opened for something, and closed. No other is open.
Once(s, f, mode, path, type, value) ==
    LET h == Len(s.handles) + 1
        t == Close(Write(Open(s, f, mode), h, path, type, value), h)
    IN [t EXCEPT !.handles = s.handles]

\* What is there is updated, if that can be done, and else overwritten.
PutMode(file) ==
    IF Refusal(file, "update") = "" THEN "update" ELSE "overwrite"

HasFeature(file, path) == path = <<>> \/ path \in file.groups
HasAttribute(file, path) == path \in Paths(file)
Attribute(file, path) == CHOOSE a \in file.attributes: a.path = path

Within(paths, path) ==
    {p \in paths: Len(p) = Len(path) + 1 /\ IsPrefix(path, p)}
FeaturesIn(file, path) == Within(file.groups, path)
AttributesIn(file, path) == Within(Paths(file), path)

Handles(s, f) ==
    {h \in 1..Len(s.handles): s.handles[h].open /\ s.handles[h].file = f}
OpenHandles(s) == {h \in 1..Len(s.handles): s.handles[h].open}
IsFile(file) == file.kind \in {"text", "store"}

\* The drivers that are asked for a dataset: the one of the format, or else
\* that of Fern first, and the others by name.
Asked(names, sorted, format) ==
    IF format # "" THEN IF format \in names THEN <<format>> ELSE <<>>
    ELSE (IF "Fern" \in names THEN <<"Fern">> ELSE <<>>) \o
         SelectSeq(sorted, LAMBDA n: n # "Fern")
==============================================================================

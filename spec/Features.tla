------------------------------ MODULE Features ------------------------------
(* A feature holds features and attributes by name. Features are shared: a   *)
(* heap has, for each feature, the maps of its names to features and to      *)
(* attributes. A path is a sequence of names, followed from a feature.       *)
(* Attributes have a single value, or a value for each geometry of a domain. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == [n \in {} |-> 0]
Bare == [features |-> None, attributes |-> None]

Put(map, name, x) ==
    [n \in DOMAIN map \union {name} |-> IF n = name THEN x ELSE map[n]]

\* The feature at the end of a path; 0 when there is none.
RECURSIVE At(_, _, _)
At(heap, on, path) ==
    IF path = <<>> THEN on
    ELSE IF Head(path) \in DOMAIN heap[on].features
    THEN At(heap, heap[on].features[Head(path)], Tail(path))
    ELSE 0

Parent(path) == SubSeq(path, 1, Len(path) - 1)
Name(path) == path[Len(path)]

\* A feature itself has no name, so an empty path is the name of nothing.
Holder(heap, on, path) ==
    IF path = <<>> THEN 0 ELSE At(heap, on, Parent(path))
HasFeature(heap, on, path) ==
    LET h == Holder(heap, on, path)
    IN h # 0 /\ Name(path) \in DOMAIN heap[h].features
HasAttribute(heap, on, path) ==
    LET h == Holder(heap, on, path)
    IN h # 0 /\ Name(path) \in DOMAIN heap[h].attributes
Feature(heap, on, path) ==
    IF HasFeature(heap, on, path)
    THEN heap[Holder(heap, on, path)].features[Name(path)] ELSE 0
Attribute(heap, on, path) ==
    IF HasAttribute(heap, on, path)
    THEN heap[Holder(heap, on, path)].attributes[Name(path)] ELSE 0

CanAdd(heap, on, path) ==
    /\ Holder(heap, on, path) # 0
    /\ ~HasFeature(heap, on, path) /\ ~HasAttribute(heap, on, path)
AddFeature(heap, on, path, x) ==
    LET h == Holder(heap, on, path)
    IN [heap EXCEPT ![h].features = Put(@, Name(path), x)]
AddAttribute(heap, on, path, x) ==
    LET h == Holder(heap, on, path)
    IN [heap EXCEPT ![h].attributes = Put(@, Name(path), x)]

NrFeatures(heap, on) == Cardinality(DOMAIN heap[on].features)
NrAttributes(heap, on) == Cardinality(DOMAIN heap[on].attributes)

\* Domains: the numbers of the geometries are given out in order, from 0, and
\* are the numbers of the values.
Place(domain, geometry, value) ==
    Append(domain, [geometry |-> geometry, value |-> value])
Number(domain) == Len(domain) - 1

\* The cells of an array.
Cells(shape) ==
    LET RECURSIVE Go(_)
        Go(k) == IF k = 0 THEN 1 ELSE shape[k] * Go(k - 1)
    IN Go(Len(shape))
=============================================================================

----------------------------- MODULE MCFeatures -----------------------------
(* All programs over a few features that hold each other: what paths keep to.*)
EXTENDS Features

CONSTANTS Names, Ids, Longest, Most

VARIABLES heap
vars == <<heap>>

Init == heap = [k \in Ids |-> Bare]

Paths == UNION {[1..n -> Names]: n \in 0..Longest}

RECURSIVE Sum(_)
Sum(s) == IF s = {} THEN 0
          ELSE LET x == CHOOSE x \in s: TRUE
               IN NrFeatures(heap, x) + NrAttributes(heap, x) + Sum(s \ {x})

Next == \E on \in Ids, path \in Paths, x \in Ids:
    /\ Sum(Ids) < Most
    /\ CanAdd(heap, on, path)
    /\ heap' \in {AddFeature(heap, on, path, x),
                  AddAttribute(heap, on, path, x)}

Spec == Init /\ [][Next]_vars

\* A name is that of one thing.
Distinct == \A on \in Ids, path \in Paths:
    ~(HasFeature(heap, on, path) /\ HasAttribute(heap, on, path))

\* Following a path in two parts is following it.
Parts == \A on \in Ids, p \in Paths, q \in Paths:
    LET m == At(heap, on, p)
    IN /\ (m # 0 => At(heap, on, p \o q) = At(heap, m, q))
       /\ (m = 0 => At(heap, on, p \o q) = 0)
       /\ (q # <<>> /\ m # 0) =>
              /\ Feature(heap, on, p \o q) = Feature(heap, m, q)
              /\ Attribute(heap, on, p \o q) = Attribute(heap, m, q)

\* What is found is what is at the end of the path.
Found == \A on \in Ids, path \in Paths:
    /\ HasFeature(heap, on, path) <=> Feature(heap, on, path) # 0
    /\ path # <<>> => Feature(heap, on, path) = At(heap, on, path)
    /\ HasAttribute(heap, on, path) <=> Attribute(heap, on, path) # 0

\* Adding shows up at its path, and takes nothing away.
Adding == \A on \in Ids, path \in Paths, x \in Ids:
    CanAdd(heap, on, path) =>
        LET f == AddFeature(heap, on, path, x)
            a == AddAttribute(heap, on, path, x)
            h == Holder(heap, on, path)
        IN /\ Feature(f, on, path) = x /\ Attribute(a, on, path) = x
           /\ NrFeatures(f, h) = NrFeatures(heap, h) + 1
           /\ NrAttributes(f, h) = NrAttributes(heap, h)
           /\ NrAttributes(a, h) = NrAttributes(heap, h) + 1
           /\ NrFeatures(a, h) = NrFeatures(heap, h)
           /\ \A o \in Ids, q \in Paths:
                  /\ Feature(heap, o, q) # 0 =>
                         Feature(f, o, q) = Feature(heap, o, q)
                  /\ Attribute(heap, o, q) # 0 =>
                         /\ Attribute(f, o, q) = Attribute(heap, o, q)
                         /\ Attribute(a, o, q) = Attribute(heap, o, q)
                  /\ Feature(a, o, q) = Feature(heap, o, q)
=============================================================================

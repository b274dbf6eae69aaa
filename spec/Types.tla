-------------------------------- MODULE Types --------------------------------
(* Value types and data types, as sets of names; what an expression of      *)
(* some type may be used for; the type of the result of an operation.       *)
EXTENDS Integers, Sequences, FiniteSets

\* In the order in which sets are written.
ValueNames == <<"Bool", "Char", "Uint8", "Int8", "Uint16", "Int16", "Uint32",
                "Int32", "Uint64", "Int64", "Float32", "Float64", "String">>
DataNames == <<"Constant", "StaticField">>

Range(s) == {s[k]: k \in 1..Len(s)}

Unsigned == {"Uint8", "Uint16", "Uint32", "Uint64"}
Signed == {"Int8", "Int16", "Int32", "Int64"}
Integral == Unsigned \cup Signed
Floating == {"Float32", "Float64"}
Numbers == Integral \cup Floating

RECURSIVE Joined(_, _)
Joined(texts, separator) ==
    IF texts = <<>> THEN ""
    ELSE IF Len(texts) = 1 THEN texts[1]
    ELSE texts[1] \o separator \o Joined(Tail(texts), separator)

Text(names, set) ==
    IF set = {} THEN "?"
    ELSE Joined(SelectSeq(names, LAMBDA n: n \in set), "|")

\* Nothing known is not a special case of anything.
IsSubset(a, b) == a # {} /\ a \subseteq b

Fixed(set) == Cardinality(set) = 1

(* A type of an expression: [d |-> data types, v |-> value types]: one of    *)
(* these, yet unknown which one, if there are more.                          *)
UnknownType == [d |-> {}, v |-> {}]
TypeDefined(t) == t.d # {} /\ t.v # {}
TypeFixed(t) == Fixed(t.d) /\ Fixed(t.v)
Satisfied(t, by) == IsSubset(by.d, t.d) /\ IsSubset(by.v, t.v)
TypeText(t) == Text(DataNames, t.d) \o "/" \o Text(ValueNames, t.v)

\* Sequences of types. The (0-based) first one of by that suits any of ts.
SomeSatisfied(ts, t) == \E k \in 1..Len(ts): Satisfied(ts[k], t)
FirstSatisfying(ts, by) ==
    LET good == {k \in 1..Len(by): SomeSatisfied(ts, by[k])}
    IN IF good = {} THEN Len(by)
       ELSE (CHOOSE k \in good: \A l \in good: k <= l) - 1
TypesSatisfied(ts, by) == \E k \in 1..Len(by): SomeSatisfied(ts, by[k])
TypesFixed(ts) == ts # <<>> /\ \A k \in 1..Len(ts): TypeFixed(ts[k])
TypesText(ts) == Joined([k \in 1..Len(ts) |-> TypeText(ts[k])], " | ")

-----------------------------------------------------------------------------
(* The type of the result of an operation, given its parameters' types, the  *)
(* type it says its result has, and the types of the arguments.              *)

Union(sets) == UNION Range(sets)

Usable(arguments, parameters) ==
    [k \in 1..Len(arguments) |-> arguments[k] \cap parameters[k]]

\* A field if any of the arguments may be one.
ResultData(parameters, result, arguments) ==
    LET usable == Union(Usable(arguments, parameters))
    IN IF Fixed(result) THEN result
       ELSE IF "StaticField" \in usable THEN {"StaticField"}
       ELSE IF "Constant" \in usable THEN {"Constant"}
       ELSE Union(parameters)

\* The one that counts, from the strongest one.
Rank == <<"Float64", "Float32", "Uint64", "Int64", "Uint32", "Int32",
          "Uint16", "Int16", "Uint8", "Int8">>
Strongest(set) ==
    Rank[CHOOSE k \in 1..Len(Rank):
             /\ Rank[k] \in set
             /\ \A l \in 1..(k - 1): Rank[l] \notin set]

\* With a single parameter, the type of the argument is passed on.
ResultValue(parameters, result, arguments) ==
    LET usable == Union(Usable(arguments, parameters))
    IN IF Fixed(result) THEN result
       ELSE IF Len(arguments) = 1 /\ arguments[1] # {} THEN arguments[1]
       ELSE IF Fixed(usable) THEN usable
       ELSE IF usable = {} THEN Union(parameters)
       ELSE {Strongest(usable)}

Of(types, field) == [k \in 1..Len(types) |-> types[k][field]]

ResultType(parameters, result, arguments) ==
    [d |-> ResultData(Of(parameters, "d"), result.d, Of(arguments, "d")),
     v |-> ResultValue(Of(parameters, "v"), result.v, Of(arguments, "v"))]

-----------------------------------------------------------------------------
\* Operations by name: the last one of a name is the one that is found.
Names(given) == Range(given)
LastOf(given, name) ==
    CHOOSE k \in 1..Len(given):
        /\ given[k] = name
        /\ \A l \in (k + 1)..Len(given): given[l] # name
=============================================================================

------------------------------ MODULE TypesTrace ------------------------------
(* Recorded calculations with types, against Types. *)
EXTENDS Types, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

SetOf(s) == Range(s)
\* A set is shown in the order of its enumeration, each element once.
Shows(s, set) ==
    \E names \in {ValueNames, DataNames}:
        s = SelectSeq(names, LAMBDA n: n \in set)
TypeOf(t) == [d |-> SetOf(t.d), v |-> SetOf(t.v)]
TypesOf(ts) == [k \in 1..Len(ts) |-> TypeOf(ts[k])]
ShowsType(s, t) == Shows(s.d, t.d) /\ Shows(s.v, t.v)

FlagsOk(e) ==
    LET a == SetOf(e.a)
        b == SetOf(e.b)
        names == IF (a \cup b) \subseteq Range(DataNames) THEN DataNames
                 ELSE ValueNames
    IN /\ Shows(e.and, a \cap b) /\ Shows(e.and2, a \cap b)
       /\ Shows(e["or"], a \cup b) /\ Shows(e.or2, a \cup b)
       /\ Shows(e.xor, (a \cup b) \ (a \cap b))
       /\ e.refs /\ Shows(e.same, a) /\ Shows(e.copy, a)
       /\ e.eq = (a = b) /\ e.ne = (a # b)
       /\ e.count = Cardinality(a) /\ e.none = (a = {}) /\ e.any = (a # {})
       /\ e.fixed = Fixed(a) /\ e.subset = IsSubset(a, b)
       /\ e.text = Text(names, a) /\ e.stream = Text(names, a)

Named(by, name) ==
    CASE by \in {"text", "type", "text of data"} /\
         name \in Range(ValueNames) \cup Range(DataNames) -> {name}
      [] by = "text" /\ name = "Size" -> {"Uint64"}
      [] by = "text" /\ name = "Number" -> Numbers
      [] by = "text" /\ name = "All" -> Range(ValueNames)
      [] by = "text of data" /\ name = "All" -> Range(DataNames)
      [] by = "constant" /\ name = "UNKNOWN" -> {}
      [] by = "constant" /\ name = "UNSIGNED_INTEGER" -> Unsigned
      [] by = "constant" /\ name = "SIGNED_INTEGER" -> Signed
      [] by = "constant" /\ name = "INTEGER" -> Integral
      [] by = "constant" /\ name = "SIZE" -> {"Uint64"}
      [] by = "constant" /\ name = "FLOATING_POINT" -> Floating
      [] by = "constant" /\ name = "NUMBER" -> Numbers
      [] by = "constant" /\ name = "ALL" -> Range(ValueNames)
      [] by = "data" /\ name = "UNKNOWN" -> {}
      [] by = "data" /\ name = "ALL" -> Range(DataNames)

NamesOk(e) == \A k \in 1..Len(e.given):
    Shows(e.given[k].set, Named(e.given[k].by, e.given[k].name))

TypeOk(e) ==
    LET a == TypeOf(e.a)
        b == TypeOf(e.b)
    IN /\ ShowsType(e.seen, a)
       /\ e.defined = TypeDefined(a) /\ e.fixed = TypeFixed(a)
       /\ e.eq = (a = b) /\ e.ne = (a # b)
       /\ e.satisfied = Satisfied(a, b) /\ e.text = TypeText(a)

TypesOk(e) ==
    LET a == TypesOf(e.a)
        b == TypesOf(e.b)
    IN /\ Len(e.seen1) = Len(a) /\ Len(e.seen2) = Len(b)
       /\ \A k \in 1..Len(a): ShowsType(e.seen1[k], a[k])
       /\ \A k \in 1..Len(b): ShowsType(e.seen2[k], b[k])
       /\ e.size = Len(a) /\ e.empty = (a = <<>>)
       /\ e.fixed = TypesFixed(a) /\ e.satisfied = TypesSatisfied(a, b)
       /\ e.id = FirstSatisfying(a, b) /\ e.text = TypesText(a)

ResultOk(e) ==
    LET p == TypesOf(e.parameters)
        a == TypesOf(e.arguments)
        r == TypesOf(e.results)
    IN /\ e.arity = Len(p) /\ e.name = "op"
       /\ Len(e.types) = Len(r) /\ Len(e.copy) = Len(r)
       /\ \A k \in 1..Len(r):
              /\ ShowsType(e.types[k], ResultType(p, r[k], a))
              /\ ShowsType(e.copy[k], ResultType(p, r[k], a))

OperationsOk(e) ==
    /\ e.size = Cardinality(Names(e.given)) /\ e.empty = (e.given = <<>>)
    /\ \A k \in 1..Len(e.found):
           LET f == e.found[k]
           IN IF f.name \in Names(e.given)
              THEN f.has /\ f.x = LastOf(e.given, f.name)
              ELSE ~f.has /\ f.x = 0

Ok(e) ==
    /\ e.crash = 0
    /\ CASE e.op = "flags" -> FlagsOk(e)
         [] e.op = "names" -> NamesOk(e)
         [] e.op = "type" -> TypeOk(e)
         [] e.op = "types" -> TypesOk(e)
         [] e.op = "result" -> ResultOk(e)
         [] e.op = "operations" -> OperationsOk(e)

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================

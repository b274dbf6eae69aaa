---------------------------- MODULE FeaturesTrace ----------------------------
(* Recorded programs over features, attributes and values, against Features. *)
EXTENDS Features, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* In order: the names the programs use.
InOrder == <<"a", "ab", "b", "c d">>
Sorted(names) == SelectSeq(InOrder, LAMBDA n: n \in names)

One(b) == IF b THEN 1 ELSE 0

FeatureStep(heap, s) ==
    IF s.op = "addf" THEN AddFeature(heap, s.on, s.path, s.arg)
    ELSE IF s.op = "adda" THEN AddAttribute(heap, s.on, s.path, s.arg)
    ELSE heap

Asked(heap, s) ==
    LET to == At(heap, s.on, s.path)
    IN CASE s.op \in {"addf", "adda"} -> 0
         [] s.op = "hasf" -> One(HasFeature(heap, s.on, s.path))
         [] s.op = "hasa" -> One(HasAttribute(heap, s.on, s.path))
         [] s.op = "feature" -> Feature(heap, s.on, s.path)
         [] s.op = "attribute" -> Attribute(heap, s.on, s.path)
         [] s.op = "nrf" -> NrFeatures(heap, to)
         [] s.op = "nra" -> NrAttributes(heap, to)
         [] s.op = "all" ->
                NrFeatures(heap, s.on) * 100 + NrAttributes(heap, s.on)

Names(heap, s, which) ==
    IF s.op # "all" THEN <<>>
    ELSE Sorted(IF which = "features" THEN DOMAIN heap[s.on].features
                ELSE DOMAIN heap[s.on].attributes)

RECURSIVE RunFeatures(_, _, _)
RunFeatures(e, i, heap) ==
    IF i > Len(e.steps) THEN TRUE
    ELSE LET s == e.steps[i]
             r == e.results[i]
         IN /\ r.r = Asked(heap, s)
            /\ r.fn = Names(heap, s, "features")
            /\ r.an = Names(heap, s, "attributes")
            /\ RunFeatures(e, i + 1, FeatureStep(heap, s))

FeaturesOk(e) ==
    /\ Len(e.results) = Len(e.steps)
    /\ RunFeatures(e, 1, [k \in 1..4 |-> Bare])

\* Attributes: a constant has a value, another has a domain with values.
AttributeStep(as, s) ==
    CASE s.op = "set" -> [as EXCEPT ![s.on].value = s.value]
      [] s.op = "put" -> [as EXCEPT ![s.on].domain = Place(@, s.at, s.value)]
      [] OTHER -> as

Numbers(n) == [k \in 1..n |-> k - 1]

StateOk(state, domain) ==
    LET n == Len(domain)
    IN /\ state.size = n /\ state.empty = (n = 0)
       /\ state.dsize = n /\ state.dempty = (n = 0)
       /\ state.vsize = n /\ state.vempty = (n = 0)
       /\ state.ids = Numbers(n) /\ state.vids = Numbers(n)
       /\ state.geometries = [k \in 1..n |-> domain[k].geometry]
       /\ state.values = [k \in 1..n |-> domain[k].value]

AnswerOk(a, s, r) ==
    /\ r.t = (IF s.op = "get" THEN a.value
              ELSE IF s.op = "type" THEN a.kind ELSE "")
    /\ r.u = (IF s.op = "type" THEN a.type ELSE "")
    /\ r.gid = (IF s.op = "put"
                THEN Number(Place(a.domain, s.at, s.value)) ELSE -1)
    /\ r.same
    /\ s.op = "state" => StateOk(r.state, a.domain)

RECURSIVE RunAttributes(_, _, _)
RunAttributes(e, i, as) ==
    IF i > Len(e.steps) THEN TRUE
    ELSE LET s == e.steps[i]
         IN /\ AnswerOk(as[s.on], s, e.results[i])
            /\ RunAttributes(e, i + 1, AttributeStep(as, s))

AttributesOk(e) ==
    /\ Len(e.results) = Len(e.steps)
    /\ RunAttributes(e, 1, [k \in 1..Len(e.given) |->
           [kind |-> e.given[k].kind, type |-> e.given[k].type,
            value |-> e.given[k].value, domain |-> <<>>]])

\* Values: arrays of cells, and a mask with a mark for each of them.
ShownOk(e, o) ==
    /\ o.shape = e.shape /\ o.n = Cells(e.shape) /\ o.shown = e.cells

ValuesOk(e) ==
    /\ ShownOk(e, e.array) /\ ShownOk(e, e.marray)
    /\ e.mask.none /\ e.mask.mshape = e.shape
    /\ e.mask.some = (e.marks # <<>>)

Ok(e) ==
    /\ e.crash = 0
    /\ CASE e.op = "features" -> FeaturesOk(e)
         [] e.op = "attributes" -> AttributesOk(e)
         [] e.op = "values" -> ValuesOk(e)

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================

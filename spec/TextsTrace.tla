------------------------------ MODULE TextsTrace ------------------------------
(* Recorded operations on strings, paths and data names, against Texts.      *)
EXTENDS Texts, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

WordsOk(e) ==
    /\ e.refs
    /\ e.split = Split(e.t, Chars(e.by)) /\ e.words = Split(e.t, {})
    /\ e.strip = Strip(e.t, Chars(e.by)) /\ e.space = Strip(e.t, {})
    /\ e.begin = StripBegin(e.t, Chars(e.by))
    /\ e["end"] = StripEnd(e.t, Chars(e.by))

SearchOk(e) ==
    /\ e.ref
    /\ e.contains = Contains(e.t, e.u)
    /\ e.starts = StartsWith(e.t, e.u) /\ e.ends = EndsWith(e.t, e.u)
    /\ e.replace = IF e.u = <<>> THEN e.t ELSE Replace(e.t, e.u, e.v)
    /\ e.join = Join(e.ts, e.u)

IntegerOk(e) == e.is = IsInteger(e.t) /\ e.as = IntegerText(e.t)

RealOk(e) ==
    /\ e.is = IsReal(e.t)
    /\ ~e.is => e.zero
    /\ IsShort(e.t) =>
           /\ e.milli = Milli(e.t) /\ e.zero = (Milli(e.t) = 0)
           /\ e.exact = (Milli(e.t) % 125 = 0)

PathSeen(o, p) ==
    /\ o.generic = Generic(p) /\ Generic(o.native) = Generic(p)
    /\ o.stream = Generic(p)
    /\ o.empty = (p = <<>>) /\ o.absolute = IsAbsolute(p)
    /\ o.stem = Stem(p) /\ o.parent = Generic(Parent(p))
    /\ o.filename = Filename(p) /\ o.names = PathNames(p)

PathAfter(s, p) ==
    CASE s.s = "extension" -> ReplaceExtension(p, s.x)
      [] s.s = "append" -> Below(p, s.x)
      [] s.s = "none" -> p

RECURSIVE RunPaths(_, _, _)
RunPaths(e, k, p) ==
    IF k > Len(e.steps) THEN TRUE
    ELSE LET s == e.steps[k]
             next == PathAfter(s, p)
         IN /\ s.ref /\ PathSeen(s.o, next)
            /\ s.equal = Samepath(next, s.x) /\ s.self
            /\ RunPaths(e, k + 1, next)

NameOk(e) ==
    /\ e.database = DatabasePath(e.t) /\ e.data = DataPath(e.t)
    /\ e.generic = DataPath(e.t) /\ e.absolute
    /\ e.names = PathNames(After(e.t, {Colon}))

Ok(e) ==
    /\ e.crash = 0
    /\ CASE e.op = "words" -> WordsOk(e)
         [] e.op = "search" -> SearchOk(e)
         [] e.op = "integer" -> IntegerOk(e)
         [] e.op = "real" -> RealOk(e)
         [] e.op = "paths" -> PathSeen(e.o, e.start) /\ RunPaths(e, 1, e.start)
         [] e.op = "name" -> NameOk(e)

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================

------------------------------- MODULE MCTexts -------------------------------
(* Laws of texts, paths and data names: all short ones.                      *)
EXTENDS Texts

CONSTANTS Alphabet, Longest

RECURSIVE Of(_)
Of(n) == IF n = 0 THEN {<<>>} ELSE
    LET shorter == Of(n - 1) IN shorter \cup {Append(t, c): t \in shorter, c \in Alphabet}

VARIABLES t, u
Init == t \in Of(Longest) /\ u \in Of(2)
Next == UNCHANGED <<t, u>>

\* Splitting loses the characters that were split by, and nothing else.
Splitting ==
    LET words == Split(t, Chars(u))
    IN /\ \A k \in 1..Len(words): words[k] # <<>>
       /\ u # <<>> =>
              /\ Join(words, <<>>) = SelectSeq(t, LAMBDA c: c \notin Chars(u))
              /\ Split(Join(words, u), Chars(u)) = words
Stripping ==
    u # <<>> =>
        LET s == Strip(t, Chars(u))
        IN /\ Contains(t, s) /\ Strip(s, Chars(u)) = s
           /\ s # <<>> => s[1] \notin Chars(u) /\ s[Len(s)] \notin Chars(u)
           /\ (s = <<>>) = (Chars(t) \subseteq Chars(u))
Finding ==
    /\ Contains(t, u) = (\E k, l \in 0..Len(t): SubSeq(t, k + 1, l) = u)
    /\ StartsWith(t, u) \/ EndsWith(t, u) => Contains(t, u)
Replacing ==
    u # <<>> =>
        /\ ~Contains(t, u) => Replace(t, u, <<Slash>>) = t
        /\ Replace(t, u, u) = t
        /\ Len(u) = 1 => ~Contains(Replace(t, u, <<>>), u)

\* The name and what it is in make up the path.
Parts ==
    /\ IsAbsolute(t) = IsAbsolute(Generic(t)) /\ Generic(Generic(t)) = Generic(t)
    /\ Filename(t) # <<>> => Generic(Below(Parent(t), Filename(t))) = Generic(t)
    /\ StartsWith(Filename(t), Stem(t))
    /\ PathNames(Generic(t)) = PathNames(t)
    /\ Filename(t) # <<>> => Len(PathNames(Parent(t))) = Len(PathNames(t)) - 1
Extensions ==
    /\ ReplaceExtension(ReplaceExtension(t, <<>>), <<>>) = ReplaceExtension(t, <<>>)
           \/ Cardinality({k \in 1..Len(t): t[k] = Dot}) > 1
    /\ Filename(t) \notin {<<>>, <<Dot>>, <<Dot, Dot>>} =>
           Stem(ReplaceExtension(t, <<98>>)) = Stem(t)
Combining ==
    /\ IsAbsolute(Below(t, u)) = (IsAbsolute(t) \/ IsAbsolute(u))
    /\ u # <<>> /\ ~IsAbsolute(u) =>
           PathNames(Below(t, u)) = PathNames(t) \o PathNames(u)

\* Names of data are normal: the same when they are made again.
DataNames ==
    IsDataName(t) =>
        LET again == DatabasePath(t) \o <<Colon>> \o DataPath(t)
        IN /\ DatabasePath(again) = DatabasePath(t)
           /\ DataPath(again) = DataPath(t)
           /\ IsAbsolute(DataPath(t)) /\ Generic(DataPath(t)) = DataPath(t)
           /\ PathNames(DataPath(t)) = PathNames(After(t, {Colon}))
=============================================================================

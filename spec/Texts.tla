-------------------------------- MODULE Texts --------------------------------
(* Strings, paths and data names. A text is a sequence of character codes.   *)
EXTENDS Integers, Sequences, FiniteSets

Slash == 47
Colon == 58
Dot == 46
Space == {32} \cup 9..13
Digits == 48..57

Chars(t) == {t[k]: k \in 1..Len(t)}
Min(a, b) == IF a <= b THEN a ELSE b

-----------------------------------------------------------------------------
\* The maximal pieces without any of the characters.
RECURSIVE Pieces(_, _, _)
Pieces(t, by, piece) ==
    LET done == IF piece = <<>> THEN <<>> ELSE <<piece>>
    IN IF t = <<>> THEN done
       ELSE IF Head(t) \in by THEN done \o Pieces(Tail(t), by, <<>>)
       ELSE Pieces(Tail(t), by, Append(piece, Head(t)))

Split(t, by) == Pieces(t, IF by = {} THEN Space ELSE by, <<>>)

RECURSIVE StripBegin(_, _)
StripBegin(t, chars) ==
    IF t # <<>> /\ Head(t) \in chars THEN StripBegin(Tail(t), chars) ELSE t
RECURSIVE StripEnd(_, _)
StripEnd(t, chars) ==
    IF t # <<>> /\ t[Len(t)] \in chars
    THEN StripEnd(SubSeq(t, 1, Len(t) - 1), chars) ELSE t
Strip(t, chars) ==
    LET c == IF chars = {} THEN Space ELSE chars
    IN StripBegin(StripEnd(t, c), c)

RECURSIVE Join(_, _)
Join(ts, separator) ==
    IF ts = <<>> THEN <<>>
    ELSE IF Len(ts) = 1 THEN ts[1]
    ELSE ts[1] \o separator \o Join(Tail(ts), separator)

StartsWith(t, s) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
EndsWith(t, s) == Len(s) <= Len(t) /\ SubSeq(t, Len(t) - Len(s) + 1, Len(t)) = s
Contains(t, s) == \E k \in 0..Len(t): StartsWith(SubSeq(t, k + 1, Len(t)), s)

\* From left to right; what is put in is not looked at again.
RECURSIVE Replace(_, _, _)
Replace(t, old, new) ==
    IF t = <<>> THEN <<>>
    ELSE IF StartsWith(t, old)
    THEN new \o Replace(SubSeq(t, Len(old) + 1, Len(t)), old, new)
    ELSE <<Head(t)>> \o Replace(Tail(t), old, new)

-----------------------------------------------------------------------------
\* Numbers in texts.
Signless(t) == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
IsDigits(t) == t # <<>> /\ Chars(t) \subseteq Digits
Canonical(t) ==     \* Of digits.
    LET s == StripBegin(t, {48}) IN IF s = <<>> THEN <<48>> ELSE s

\* 9223372036854775807 and one more.
Largest == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53,
             56, 48, 55>>
Lowest == [Largest EXCEPT ![19] = 56]
NotAbove(a, b) ==   \* Canonical digits.
    \/ Len(a) < Len(b)
    \/ /\ Len(a) = Len(b)
       /\ \/ a = b
          \/ \E k \in 1..Len(a):
                 a[k] < b[k] /\ \A l \in 1..(k - 1): a[l] = b[l]

Negative(t) == t # <<>> /\ t[1] = 45
IsInteger(t) ==
    /\ IsDigits(Signless(t))
    /\ NotAbove(Canonical(Signless(t)), IF Negative(t) THEN Lowest ELSE Largest)
IntegerText(t) ==   \* How the number is written.
    IF ~IsInteger(t) THEN <<48>>
    ELSE LET c == Canonical(Signless(t))
         IN IF Negative(t) /\ c # <<48>> THEN <<45>> \o c ELSE c

Lower(t) == [k \in 1..Len(t) |-> IF t[k] \in 65..90 THEN t[k] + 32 ELSE t[k]]
Index(t, chars) ==      \* Of the first one, or one past the end.
    LET at == {k \in 1..Len(t): t[k] \in chars}
    IN IF at = {} THEN Len(t) + 1 ELSE CHOOSE k \in at: \A l \in at: k <= l
Before(t, chars) == SubSeq(t, 1, Index(t, chars) - 1)
After(t, chars) == SubSeq(t, Index(t, chars) + 1, Len(t))

Inf == <<105, 110, 102>>
Infinity == Inf \o <<105, 110, 105, 116, 121>>
NaN == <<110, 97, 110>>

\* Digits with at most one point, and possibly an exponent.
IsMantissa(t) ==
    \/ IsDigits(t)
    \/ /\ Cardinality({k \in 1..Len(t): t[k] = Dot}) = 1
       /\ IsDigits(SelectSeq(t, LAMBDA c: c # Dot))
IsReal(t) ==
    LET s == Signless(t)
    IN \/ Lower(s) \in {Inf, Infinity, NaN}
       \/ IsMantissa(s)
       \/ /\ Index(s, {69, 101}) <= Len(s)
          /\ IsMantissa(Before(s, {69, 101}))
          /\ IsDigits(Signless(After(s, {69, 101})))

RECURSIVE Value(_, _)
Value(digits, sum) ==
    IF digits = <<>> THEN sum ELSE Value(Tail(digits), (sum * 10) + Head(digits) - 48)
\* 1000 times the number, for short ones without an exponent.
Milli(t) ==
    LET s == Signless(t)
        f == After(s, {Dot})
        n == (1000 * Value(Before(s, {Dot}), 0)) +
             Value(SubSeq(f \o <<48, 48, 48>>, 1, 3), 0)
    IN IF Negative(t) THEN -n ELSE n
IsShort(t) ==
    /\ IsMantissa(Signless(t))
    /\ Len(Before(Signless(t), {Dot})) <= 5 /\ Len(After(Signless(t), {Dot})) <= 3

-----------------------------------------------------------------------------
(* Paths. A path is a text; repeated separators count as one.                *)

RECURSIVE Generic(_)
Generic(t) ==
    IF Len(t) < 2 THEN t
    ELSE IF t[1] = Slash /\ t[2] = Slash THEN Generic(Tail(t))
    ELSE <<t[1]>> \o Generic(Tail(t))

IsAbsolute(t) == t # <<>> /\ t[1] = Slash
Samepath(a, b) == Generic(a) = Generic(b)

LastSlash(t) ==         \* 0: there is none.
    LET at == {k \in 1..Len(t): t[k] = Slash}
    IN IF at = {} THEN 0 ELSE CHOOSE k \in at: \A l \in at: l <= k

Filename(t) == SubSeq(t, LastSlash(t) + 1, Len(t))
Parent(t) ==
    LET directory == SubSeq(t, 1, LastSlash(t))
        stripped == StripEnd(directory, {Slash})
    IN IF stripped = <<>> /\ directory # <<>> THEN <<Slash>> ELSE stripped

\* Of the last dot in a name, if an extension starts there. Otherwise 0.
ExtensionAt(name) ==
    LET at == {k \in 2..Len(name): name[k] = Dot}
    IN IF name = <<Dot, Dot>> \/ at = {} THEN 0
       ELSE CHOOSE k \in at: \A l \in at: l <= k
Stem(t) ==
    LET name == Filename(t)
        at == ExtensionAt(name)
    IN IF at = 0 THEN name ELSE SubSeq(name, 1, at - 1)

ReplaceExtension(t, new) ==
    LET at == ExtensionAt(Filename(t))
        rest == IF at = 0 THEN t ELSE SubSeq(t, 1, LastSlash(t) + at - 1)
    IN IF new = <<>> THEN rest
       ELSE IF new[1] = Dot THEN rest \o new
       ELSE rest \o <<Dot>> \o new

Below(t, other) ==
    IF IsAbsolute(other) THEN other
    ELSE IF Filename(t) # <<>> THEN t \o <<Slash>> \o other
    ELSE t \o other

PathNames(t) == Split(t, {Slash})

-----------------------------------------------------------------------------
(* The name of data in a dataset: database:data. The path of the data is     *)
(* absolute and has no superfluous separators.                               *)

IsDataName(t) == t # <<>> /\ t[1] # Colon
DatabasePath(t) == Before(t, {Colon})
DataPath(t) ==
    LET path == StripEnd(Generic(After(t, {Colon})), {Slash})
    IN IF path = <<>> THEN <<Slash>>
       ELSE IF path[1] = Slash THEN path
       ELSE <<Slash>> \o path
=============================================================================

------------------------------ MODULE MCScopes ------------------------------
(* All programs over a table of a few levels: what tables keep to.           *)
EXTENDS Scopes

CONSTANTS Names, Values, Deepest

VARIABLES table, saved   \* saved[k]: the table when its level k + 1 was pushed
vars == <<table, saved>>

Init == table = <<>> /\ saved = <<>>

DoPush == /\ Level(table) < Deepest
          /\ table' = Push(table) /\ saved' = Append(saved, table)
DoPop == /\ Level(table) > 0
         /\ table' = Pop(table) /\ saved' = Pop(saved)
DoAdd == \E n \in Names, x \in Values:
    Level(table) > 0 /\ table' = Add(table, n, x) /\ UNCHANGED saved
DoErase == \E n \in Names:
    /\ Level(table) > 0 /\ n \in DOMAIN table[Level(table)]
    /\ table' = EraseInner(table, n) /\ UNCHANGED saved
DoClear == Level(table) > 0 /\ table' = Clear(table) /\ UNCHANGED saved

Next == DoPush \/ DoPop \/ DoAdd \/ DoErase \/ DoClear
Spec == Init /\ [][Next]_vars

\* Inner scopes do not change outer ones.
Restores == Level(table) > 0 => Pop(table) = saved[Level(table)]

Finds == \A n \in Names:
    /\ Has(table, n) => /\ LevelOf(table, n) \in 1..Level(table)
                        /\ Value(table, n) \in Values
                        /\ \A k \in LevelOf(table, n) + 1 .. Level(table):
                               n \notin DOMAIN table[k]
    /\ (Level(table) > 0 /\ n \notin DOMAIN table[Level(table)] /\
            Has(table, n)) =>
                Value(table, n) = Value(saved[Level(table)], n)
    /\ \A x \in Values: Level(table) > 0 =>
           LET t == Add(table, n, x)
           IN /\ Has(t, n) /\ Value(t, n) = x /\ LevelOf(t, n) = Level(t)
              /\ \A m \in Names \ {n}: Has(t, m) = Has(table, m)
              /\ Has(EraseInner(t, n), n) = Has(saved[Level(t)], n)

Sizes == /\ Size(table) >= Cardinality({n \in Names: Has(table, n)})
         /\ (Size(table) = 0) = (\A n \in Names: ~Has(table, n))
=============================================================================

------------------------------ MODULE MCBTree -------------------------------
EXTENDS BTree
CONSTANTS MaxRuns, Lens, Splits, Hows, Joins

\* integers
Add0(x, y) == x + y
Sub0(x, y) == x - y
Lt0(x, y) == x < y
\* a group that does not commute, with an order both its multiplications respect (as `He` of the harness)
HAdd(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3] + x[1] * y[2]>>
HInv(x) == <<-x[1], -x[2], x[1] * x[2] - x[3]>>
HSubL(x, l) == HAdd(HInv(l), x)
HSubR(x, r) == HAdd(x, HInv(r))
HLt(x, y) == IF x[1] # y[1] THEN x[1] < y[1] ELSE IF x[2] # y[2] THEN x[2] < y[2] ELSE x[3] < y[3]
HZero == <<0, 0, 0>>
HLens == {<<1, 1, 0>>, <<0, 1, 2>>, <<2, -1, 1>>}
HSplits == {<<0, 1, 2>>, <<1, 1, 0>>}
HLens2 == {<<1, 2, 0>>, <<0, 1, 2>>}
HSplits2 == {<<0, 1, 2>>}

Init == heap = <<>> /\ root = 0 /\ at = <<>> /\ list = <<>> /\ cur = [run |-> 0, path |-> <<>>]
Next ==
  \/ \E z \in Lens : First(z)
  \/ \E g \in 0..Len(list), z \in Lens : Len(list) < MaxRuns /\ Edge(g, z)
  \/ \E i \in DOMAIN list, p \in Splits, z \in Lens, how \in Hows :
       Len(list) + (IF how = "none" THEN 2 ELSE 1) <= MaxRuns /\ Split(i, p, z, how)
  \/ \E i \in DOMAIN list, z \in Lens, how \in {"before", "after"} : list[i].len \in Joins /\ Join(i, z, how)
Spec == Init /\ [][Next]_bvars

View == IF root = 0 THEN <<>> ELSE <<Look(heap, root), TreeInv>>
=============================================================================

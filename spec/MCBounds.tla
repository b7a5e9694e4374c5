------------------------------- MODULE MCBounds ------------------------------
(* All pairs of ranges over NVals values: comparing bounds decides exactly what *)
(* ranges mean, and the meaning is consistent with itself.                      *)
EXTENDS Bounds
VARIABLES a, b      \* two ranges
vars == <<a, b>>
Ranges == Los \X His
Init == a \in Ranges /\ b = <<<<"U">>, <<"U">>>>
\* one bound at a time
Next == \/ \E lo \in Los : b' = <<lo, b[2]>> /\ UNCHANGED a
        \/ \E hi \in His : b' = <<b[1], hi>> /\ UNCHANGED a
        \/ \E lo \in Los : a' = <<lo, a[2]>> /\ UNCHANGED b
        \/ \E hi \in His : a' = <<a[1], hi>> /\ UNCHANGED b
Spec == Init /\ [][Next]_vars
EmptyIsDecided == AlgEmpty(a[1], a[2]) <=> Empty(a[1], a[2])
OverlapIsDecided == AlgOverlap(a[1], a[2], b[1], b[2]) <=> Overlap(a[1], a[2], b[1], b[2])
Symmetric == Overlap(a[1], a[2], b[1], b[2]) <=> Overlap(b[1], b[2], a[1], a[2])
ContainedMeansNotEmpty == (\E r \in 0..(NVals - 1) : Contains(r, a[1], a[2])) => ~Empty(a[1], a[2])
OverlapsItself == Overlap(a[1], a[2], a[1], a[2]) <=> ~Empty(a[1], a[2])
\* a wider range contains more and overlaps more
Monotone == [][(b' = b /\ a'[1] = <<"U">> /\ a'[2] = a[2] /\ Overlap(a[1], a[2], b[1], b[2])) => Overlap(a'[1], a'[2], b[1], b[2])]_vars
=============================================================================

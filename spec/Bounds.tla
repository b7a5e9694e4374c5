------------------------------- MODULE Bounds --------------------------------
(* What ranges mean.  A range is a pair of bounds over an ordered set, of which *)
(* nothing is known but the order: between any two values, before any and after *)
(* any there may be others.  So a range is empty (as far as its bounds alone    *)
(* can tell) if no point of a dense line can lie in it, and two ranges overlap  *)
(* if some point of that line lies in both.  The line is made of the known      *)
(* values, at even places, and places before, between and after them.           *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT NVals                    \* known values: ranks 0..NVals-1
Points == (-1)..(2 * NVals - 1)   \* value of rank r is at 2r
At(r) == 2 * r

Los == {<<"U">>} \cup {<<"I", r>> : r \in 0..(NVals - 1)}
His == {<<"U">>} \cup {<<"I", r>> : r \in 0..(NVals - 1)} \cup {<<"E", r>> : r \in 0..(NVals - 1)}

LiesIn(p, lo, hi) == /\ lo[1] = "I" => At(lo[2]) <= p
                     /\ hi[1] = "I" => p <= At(hi[2])
                     /\ hi[1] = "E" => p < At(hi[2])
Contains(r, lo, hi) == LiesIn(At(r), lo, hi)
Empty(lo, hi) == \A p \in Points : ~LiesIn(p, lo, hi)
Overlap(lo1, hi1, lo2, hi2) == \E p \in Points : LiesIn(p, lo1, hi1) /\ LiesIn(p, lo2, hi2)

(* The crate decides these by comparing bounds. *)
AlgEmpty(lo, hi) == lo[1] # "U" /\ hi[1] # "U" /\ (IF hi[1] = "I" THEN lo[2] > hi[2] ELSE lo[2] >= hi[2])
EndsBefore(hi, lo) == lo[1] = "I" /\ \/ hi[1] = "E" /\ lo[2] >= hi[2]
                                     \/ hi[1] = "I" /\ lo[2] > hi[2]
AlgOverlap(lo1, hi1, lo2, hi2) == ~AlgEmpty(lo1, hi1) /\ ~AlgEmpty(lo2, hi2) /\ ~EndsBefore(hi2, lo1) /\ ~EndsBefore(hi1, lo2)
=============================================================================

------------------------------- MODULE Slices -------------------------------
(* The life of slices: made once, then used and shown any number of times, then *)
(* dropped at most once, and never heard of again.                              *)
EXTENDS Naturals
None == [live |-> {}, err |-> ""]
Step(s, k, x) ==
  IF s.err # "" THEN s
  ELSE CASE k = "n" -> IF x \in s.live THEN [s EXCEPT !.err = "made twice"] ELSE [s EXCEPT !.live = @ \cup {x}]
         [] k = "d" -> IF x \in s.live THEN [s EXCEPT !.live = @ \ {x}] ELSE [s EXCEPT !.err = "dropped twice"]
         [] k = "u" -> IF x \in s.live THEN s ELSE [s EXCEPT !.err = "used after it was dropped"]
         [] k = "r" -> IF x \in s.live THEN s ELSE [s EXCEPT !.err = "shown after it was dropped"]
         [] OTHER   -> [s EXCEPT !.err = "memory that is no slice"]
=============================================================================

------------------------------- MODULE Share --------------------------------
(* Which slices trees that share nodes may copy.  A tree shows, for each of its *)
(* runs, the path of its node and the object (token and address) that holds     *)
(* its slice.  An insertion goes down to one leaf next to the place of          *)
(* insertion; of the nodes on the way there it may copy those that another tree *)
(* can reach, with their slices, and nothing else.                              *)
EXTENDS Naturals, Sequences, FiniteSets

PrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
MaxLen(ps) == CHOOSE d \in {Len(ps[k]) : k \in 1..Len(ps)} : \A k \in 1..Len(ps) : Len(ps[k]) <= d

\* leaves next to the place of insertion: before run k, or inside it if `cut`
Leaves(ps, k, cut) == {ps[j] : j \in {j \in {k - 1, k} \cup (IF cut THEN {k + 1} ELSE {}) :
                                       j >= 1 /\ j <= Len(ps) /\ Len(ps[j]) = MaxLen(ps)}}
\* runs that may be copied on the way to a leaf; `foreign` are the objects that other trees reach
MayCopy(ps, objs, foreign, leaf) == {k \in 1..Len(ps) : PrefixOf(ps[k], leaf) /\ objs[k] \in foreign}
\* one set of run identities for every leaf: those whose slices, if not
\* changed by the insertion itself, have to stay where they are
Alternatives(runs, ps, objs, foreign, k, cut) ==
  {[n |-> Cardinality(MayCopy(ps, objs, foreign, leaf)),
    keep |-> {<<runs[j], objs[j][1], objs[j][2], objs[j] \in foreign>> : j \in (1..Len(ps)) \ MayCopy(ps, objs, foreign, leaf)}]
     : leaf \in Leaves(ps, k, cut)}
=============================================================================

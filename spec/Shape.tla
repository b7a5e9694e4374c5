------------------------------- MODULE Shape --------------------------------
(* What the paths of all runs of one tree, in order, say about its shape.  A   *)
(* path is the list of child numbers from the root to the node that holds the  *)
(* run, so two runs are in the same node exactly when their paths are equal.   *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

Depth(ps) == FoldLeft(LAMBDA d, p : IF Len(p) > d THEN Len(p) ELSE d, 0, ps)

\* how many runs each node holds
Holds(ps) == FoldLeft(LAMBDA h, p : IF p \in DOMAIN h THEN [h EXCEPT ![p] = @ + 1]
                                    ELSE [q \in DOMAIN h \cup {p} |-> IF q = p THEN 1 ELSE h[q]],
                      [q \in {} |-> 0], ps)

\* occupancy: at most 2M, and at least M outside the root
Occupied(ps, m) == LET h == Holds(ps) IN
  \A q \in DOMAIN h : h[q] <= 2 * m /\ (q # <<>> => h[q] >= m)

IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

(* In-order traversal of a tree all of whose leaves have depth D: after a run  *)
(* in a leaf comes the next run of that leaf, or the run of an ancestor; after *)
(* a run of an inner node comes the first run of the left-most leaf under its  *)
(* next child.  `leaf` is the last leaf seen.                                  *)
NextLeaf(q, leaf, D) == [k \in 1..D |-> IF k <= Len(q) THEN q[k]
                                        ELSE IF k = Len(q) + 1 THEN leaf[k] + 1 ELSE 0]
\* the state after having seen some runs: the previous one, the last leaf, whether all was well
Walk(ps, Step(_, _)) == FoldLeft(LAMBDA st, b : IF ~st.ok THEN st ELSE Step(st, b),
                                 [prev |-> ps[1], leaf |-> ps[1], ok |-> TRUE], Tail(ps))
InOrder(ps, D) ==
  LET end == Walk(ps, LAMBDA st, b :
               IF Len(st.prev) = D
               THEN [st EXCEPT !.prev = b, !.ok = IF b = st.prev THEN TRUE ELSE Len(b) < D /\ IsPrefixOf(b, st.prev)]
               ELSE [prev |-> b, leaf |-> b, ok |-> b = NextLeaf(st.prev, st.leaf, D)])
  IN end.ok /\ Len(end.prev) = D
\* all leaves at the same depth, children numbered from zero without gaps, one more child than runs
Balanced(ps) == IF Len(ps) = 0 THEN TRUE ELSE
  LET D == Depth(ps) IN ps[1] = [k \in 1..D |-> 0] /\ InOrder(ps, D)

(* A search tree, balanced or not: what has to hold of cursors in any case.    *)
(* `leaf` is the last node seen that has no children.                          *)
SearchStep(st, b) ==
  LET a == st.prev  n == Len(a) IN
  IF b = a THEN [st EXCEPT !.ok = (a = st.leaf)]
  ELSE IF IsPrefixOf(b, a) THEN [st EXCEPT !.prev = b]
  ELSE [prev |-> b, leaf |-> b,
        ok |-> IF IsPrefixOf(a, b) /\ IsPrefixOf(a, st.leaf) /\ Len(st.leaf) > n
               THEN b[n + 1] = st.leaf[n + 1] + 1 /\ \A j \in (n + 2)..Len(b) : b[j] = 0
               ELSE FALSE]
SearchTree(ps) == IF Len(ps) = 0 THEN TRUE ELSE
  (\A j \in 1..Len(ps[1]) : ps[1][j] = 0) /\ (LET end == Walk(ps, SearchStep) IN end.ok /\ end.prev = end.leaf)

RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
\* with n runs the depth D (0 = root only) obeys 2 (M+1)^D - 1 <= n
DepthBound(ps, m) == LET D == Depth(ps) IN IF D = 0 THEN TRUE ELSE 2 * Pow(m + 1, D) - 1 <= Len(ps)

\* the deepest that n runs can reach
MaxDepth(n, m) == LET F[d \in 0..32] == IF 2 * Pow(m + 1, d + 1) - 1 <= n THEN F[d + 1] ELSE d IN F[0]
\* What it may cost, in operations on indexes, to reach a run, and to insert one: a part for each
\* level, which depends on the width only
ReachCost(n, m) == (MaxDepth(n, m) + 1) * (4 * m + 12)
InsertCost(n, m) == (MaxDepth(n, m) + 2) * (6 * m + 50)

GoodShape(ps, m) == Occupied(ps, m) /\ Balanced(ps) /\ DepthBound(ps, m)
=============================================================================

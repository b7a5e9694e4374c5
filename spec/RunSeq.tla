------------------------------- MODULE RunSeq -------------------------------
(* The content of a tree is a list of runs.  A run carries the data of one    *)
(* slice (how long it is, of what kind, which source and which part of the    *)
(* source it shows) and an identity, which is what references are attached to.*)
(* Everything is written in terms of the documented operations of an index    *)
(* type, so the same specification speaks about integers and about            *)
(* non-commutative indexes.                                                   *)
EXTENDS Naturals, Integers, Sequences, SequencesExt

CONSTANTS Add(_,_),   \* x +> y : x, then y to its right
          SubL(_,_),  \* x <- y : what remains of x when y is taken off its left end
          SubR(_,_),  \* x -> y : what remains of x when y is taken off its right end
          Lt(_,_),
          Zero,
          CapOk(_,_)  \* may two capped slices of these lengths be joined

Le(x, y) == IF x = y THEN TRUE ELSE Lt(x, y)

\* kinds of slices the harness uses (all of them lawful):
KConst == 0   \* every part looks the same; joins with the same source
KSpan == 1    \* shows a part of its source; joins if contiguous
KCapped == 2  \* as KSpan, up to a maximal length
KSolo == 3    \* never joins

(* ---- slices -------------------------------------------------------------- *)
Datum(j) == [len |-> j[1], k |-> j[2], s |-> j[3], lo |-> j[4]]
Tuple(d) == <<d.len, d.k, d.s, d.lo>>

LeftPart(d, p) == [d EXCEPT !.len = p]
RightPart(d, p) == [len |-> SubL(d.len, p), k |-> d.k, s |-> d.s,
                    lo |-> IF d.k = KConst THEN Zero ELSE Add(d.lo, p)]
Contiguous(a, b) == a.k = b.k /\ a.s = b.s /\ (a.k = KConst \/ Add(a.lo, a.len) = b.lo)
Joins(a, b) == /\ a.k # KSolo
               /\ Contiguous(a, b)
               /\ a.k = KCapped => CapOk(a.len, b.len)
Joined(a, b) == [a EXCEPT !.len = Add(a.len, b.len)]

(* ---- run lists ----------------------------------------------------------- *)
\* a run is [d |-> datum, id |-> Nat]
\* the position of every boundary: Starts(runs)[k] is where run k starts, and the
\* last element is the size
Starts(runs) == FoldLeft(LAMBDA acc, r : Append(acc, Add(acc[Len(acc)], r.d.len)), <<Zero>>, runs)
Size(runs) == LET b == Starts(runs) IN b[Len(b)]

\* the run that contains i, given the boundaries; Len(runs) + 1 if i is the size (or beyond)
\* (boundaries increase, so halving will do: b[k] <= i < b[k + 1])
RECURSIVE Halve(_, _, _, _)
Halve(b, i, k, n) == IF k >= n THEN k
                     ELSE LET m == (k + n) \div 2 IN
                          IF Lt(i, b[m + 1]) THEN Halve(b, i, k, m) ELSE Halve(b, i, m + 1, n)
Locate(b, i) == Halve(b, i, 1, Len(b))

(* Insertion of slice d at i, as documented: split the run around i if there  *)
(* is one, offer the new slice to the run on its left, then the outcome to    *)
(* the run on its right.  The identity of a split run stays with its left     *)
(* part; a joined run has the identity of the run it joined with (the left    *)
(* one if both); `gone` is the identity that the right one lost to the left   *)
(* one, or 0.                                                                 *)
Inserted(runs, i, d, mayJoin, fresh) ==
  LET b == Starts(runs)
      k0 == Locate(b, i)
      cut == k0 <= Len(runs) /\ Lt(b[k0], i)
      pos == SubL(i, b[k0])
      old == runs[k0]
      f1 == IF cut THEN fresh + 1 ELSE fresh
      r1 == IF cut THEN SubSeq(runs, 1, k0 - 1) \o <<[old EXCEPT !.d = LeftPart(@, pos)],
                          [d |-> RightPart(old.d, pos), id |-> fresh]>>
                          \o SubSeq(runs, k0 + 1, Len(runs))
            ELSE runs
      k1 == IF cut THEN k0 + 1 ELSE k0       \* the new slice goes before run k1 of r1
      hasL == mayJoin /\ k1 > 1
      jl == hasL /\ Joins(r1[k1 - 1].d, d)
      x == IF jl THEN Joined(r1[k1 - 1].d, d) ELSE d
      hasR == mayJoin /\ k1 <= Len(r1)
      jr == hasR /\ Joins(x, r1[k1].d)
      y == IF jr THEN Joined(x, r1[k1].d) ELSE x
      id == IF jl THEN r1[k1 - 1].id ELSE IF jr THEN r1[k1].id ELSE f1
  IN [runs |-> SubSeq(r1, 1, IF jl THEN k1 - 2 ELSE k1 - 1) \o <<[d |-> y, id |-> id]>>
                 \o SubSeq(r1, IF jr THEN k1 + 1 ELSE k1, Len(r1)),
      id |-> id,
      gone |-> IF jl /\ jr THEN r1[k1].id ELSE 0,
      cut |-> cut,
      fresh |-> IF jl \/ jr THEN f1 ELSE f1 + 1,
      splits |-> IF cut THEN <<<<Tuple(old.d), pos>>>> ELSE <<>>,
      joins |-> (IF hasL THEN <<<<Tuple(r1[k1 - 1].d), Tuple(d), jl>>>> ELSE <<>>) \o
                (IF hasR THEN <<<<Tuple(x), Tuple(r1[k1].d), jr>>>> ELSE <<>>)]

\* an insertion that joins on both sides of a boundary between runs makes the right run disappear
DoubleJoin(ins) == ins.gone # 0 /\ ~ins.cut

(* ---- what may be observed of a run list ------------------------------------ *)
\* <<start, end, size, slice>> of run k
View(runs, b, k) == <<b[k], b[k + 1], runs[k].d.len, Tuple(runs[k].d)>>
Views(runs) == LET b == Starts(runs) IN [k \in 1..Len(runs) |-> View(runs, b, k)]

(* Position-by-position content, independent of how it is cut into runs: the   *)
(* list of maximal pieces.  Two run lists have the same content at every       *)
(* position exactly when their maximal pieces are the same.                    *)
Pieces(ds) == FoldLeft(LAMBDA acc, d :
                 IF Len(acc) > 0 /\ Contiguous(acc[Len(acc)], d)
                 THEN [acc EXCEPT ![Len(acc)] = Joined(@, d)]
                 ELSE Append(acc, d), <<>>, ds)
Data(runs) == [k \in 1..Len(runs) |-> runs[k].d]

(* ---- ranges ---------------------------------------------------------------- *)
\* bounds as they are written in traces: <<"U">>, <<"I", x>>, <<"E", x>>
\* A range is rejected if it starts after its end or names an index not below the size, or if it
\* starts below zero; without a start, an end below zero just leaves nothing.
RangeOk(size, lo, hi) ==
  /\ lo[1] = "I" => Le(Zero, lo[2]) /\ Lt(lo[2], size)
  /\ hi[1] = "I" => Lt(hi[2], size) /\ (lo[1] = "I" => Le(lo[2], hi[2]))
  /\ hi[1] = "E" => Le(hi[2], size) /\ (lo[1] = "I" => Lt(lo[2], hi[2]))
\* the first and the last run that overlap the range (none if first > last)
FirstRun(b, lo) == IF lo[1] = "U" THEN 1 ELSE Locate(b, lo[2])
LastRun(b, hi) ==
  IF hi[1] = "U" THEN Len(b) - 1
  ELSE IF Lt(hi[2], Zero) THEN 0
  ELSE LET k == Locate(b, hi[2]) IN     \* b[k] <= hi, if hi is not negative
       IF k = Len(b) \/ (hi[1] = "E" /\ b[k] = hi[2]) THEN k - 1 ELSE k
\* what a script of steps (1 = front, 0 = back) yields, as run numbers (0 = nothing)
Yields(runs, lo, hi, dir) ==
  LET b == Starts(runs) IN
  FoldLeft(LAMBDA st, x :
             IF st.f > st.l THEN [st EXCEPT !.out = Append(@, 0)]
             ELSE IF x = 1 THEN [st EXCEPT !.out = Append(@, st.f), !.f = @ + 1]
             ELSE [st EXCEPT !.out = Append(@, st.l), !.l = @ - 1],
           [f |-> FirstRun(b, lo), l |-> LastRun(b, hi), out |-> <<>>], dir).out
=============================================================================

------------------------------- MODULE GenTree -------------------------------
(* RleApi and BTree in step: every insertion is made in both.  `Refines` says    *)
(* that the nodes keep what the interface promises: the same runs, references    *)
(* whose handles stay with the runs the interface says they denote, and          *)
(* cursors.  The VIEW is the tree as it is built, so TLC goes through all trees   *)
(* that can arise and, for each, through every insertion into it; the calls are   *)
(* written for the code to follow (as in Gen).                                    *)
EXTENDS Gen
CONSTANTS M, AnySplit, Splits, Conts,
          JoinMax  \* at a border, only runs that are not longer are offered something to join with

VARIABLES heap, root, at, list, cur,
          hold  \* reference -> the run of BTree whose handle it uses
B == INSTANCE BTree

tvars == <<gvars, heap, root, at, list, cur, hold>>
TreeView == IF root = 0 THEN <<Len(hist)>> ELSE <<B!Look(heap, root), B!TreeInv>>

\* a slice that joins with nothing, that goes on where the run on the left ends, or ends where the run on the
\* right starts
New1(l) == [len |-> l, k |-> KSpan, s |-> Len(hist) + 1, lo |-> 100]
After(d, l) == [d EXCEPT !.lo = @ + d.len, !.len = l]
Before(d, l) == [d EXCEPT !.lo = @ - l, !.len = l]
Around(i) == LET rs == RunsOf(0)  b == Starts(rs)  k == Locate(b, i) IN
  IF k <= Len(rs) /\ b[k] < i THEN <<<<LeftPart(rs[k].d, i - b[k])>>, <<RightPart(rs[k].d, i - b[k])>>>>
  ELSE <<IF k > 1 THEN <<rs[k - 1].d>> ELSE <<>>, IF k <= Len(rs) THEN <<rs[k].d>> ELSE <<>>>>
Slices0(i, l) ==
  LET a == Around(i)
      cut == i \notin {Starts(RunsOf(0))[k] : k \in DOMAIN Starts(RunsOf(0))}
      may(n) == a[n] # <<>> /\ (cut \/ a[n][1].len <= JoinMax)
  IN {New1(l)} \cup (IF "left" \in Conts /\ may(1) THEN {After(a[1][1], l)} ELSE {})
               \cup (IF "right" \in Conts /\ may(2) THEN {Before(a[2][1], l)} ELSE {})

\* the same insertion into the nodes
InNodes(i, d) ==
  LET rs == RunsOf(0)  b == Starts(rs)  k == Locate(b, i)
      ins == Inserted(rs, i, d, MayJoin, trees[0].fresh)
      a == Around(i)
      jl == a[1] # <<>> /\ Joins(a[1][1], d)
      jr == a[2] # <<>> /\ Joins(IF jl THEN Joined(a[1][1], d) ELSE d, a[2][1])
  IN IF rs = <<>> THEN B!First(d.len)
     ELSE IF ins.cut
     THEN IF jl /\ jr THEN B!Join(k, d.len, "after")
          ELSE B!Split(k, i - b[k], d.len, IF jl THEN "left" ELSE IF jr THEN "right" ELSE "none")
     ELSE IF jl THEN B!Join(k - 1, d.len, "after")
     ELSE IF jr THEN B!Join(k, d.len, "before")
     ELSE B!Edge(k - 1, d.len)
Cuts == LET b == Starts(RunsOf(0)) IN
  {b[k] : k \in DOMAIN b} \cup {b[k] + p : k \in 1..(Len(b) - 1), p \in Splits}
Step == \E l \in Lens, i \in Cuts :
  /\ i <= Len(flat[0])
  /\ \E d \in Slices0(i, l) :
       /\ InsertSlice(0, i, d, Len(hist))
       /\ InNodes(i, d)
       /\ hold' = Put(hold, Len(hist), cur'.run)
\* for each run the children that lead to it, from 0
Ways(h, a, l) == [k \in DOMAIN l |-> LET w == B!WayTo(h, a[l[k].id][1]) IN [j \in DOMAIN w |-> w[j] - 1]]
TreeInit == /\ GenInit /\ heap = <<>> /\ root = 0 /\ at = <<>> /\ list = <<>> /\ cur = [run |-> 0, path |-> <<>>]
            /\ hold = Empty
TreeNext == /\ IF trees = Empty THEN DoNewEmpty /\ UNCHANGED <<heap, root, at, list, cur, hold>> ELSE Step
            /\ hist' = Append(hist, last') /\ CodeCan
            /\ CSVWrite("%1$s", <<ToJson([h |-> hist', x |-> Seen', m |-> M, ways |-> Ways(heap', at', list')])>>, IOEnv.GEN)
TreeSpec == TreeInit /\ [][TreeNext]_tvars

Refines == trees # Empty =>
  /\ [k \in DOMAIN list |-> list[k].len] = [k \in DOMAIN RunsOf(0) |-> RunsOf(0)[k].d.len]
  /\ DOMAIN hold = DOMAIN refs
  /\ \A r \in DOMAIN refs : Valid(r) /\ list[RefKey(r)].id = hold[r]
TreeOk == B!TreeInv
=============================================================================

--------------------------------- MODULE Gen ---------------------------------
(* Behaviours of RleApi for the code to follow.  Every transition writes one    *)
(* line to the file named by GEN: the calls that led there (`h`) and what all   *)
(* trees, references and borrows must show afterwards (`x`).                    *)
(*  - GenSpec goes through the transitions of MCRleApi: with a VIEW that hides  *)
(*    the calls, one way to each state and every transition out of it;          *)
(*  - AllSpec goes through all sequences of calls: insertions at all positions  *)
(*    of slices that never join, clones and drops; what these differ in is the  *)
(*    shape of the trees and what they share.                                   *)
EXTENDS MCRleApi, CSV
CONSTANTS MaxCalls, MaxTrees, Lens

VARIABLE hist
gvars == <<vars, hist>>
GenView == StateView

Cap4(x, y) == x + y <= 4
\* double joins at a border are a recorded finding: the code cannot follow there
CodeCan == last'[1] = "insert" /\ trees[last'[2]].held = 0 =>
             ~DoubleJoin(Inserted(RunsOf(last'[2]), last'[3], Datum(last'[4]), MayJoin, trees[last'[2]].fresh))
Seen == [trees |-> [k \in 1..Cardinality({t \in DOMAIN trees : Alive(t)}) |->
                      LET t == SetToSortSeq({t \in DOMAIN trees : Alive(t)}, <)[k] IN <<t, Views(RunsOf(t))>>],
         refs |-> [k \in 1..Cardinality(DOMAIN refs) |->
                      LET r == SetToSortSeq(DOMAIN refs, <)[k] IN <<r, IF Valid(r) THEN RefView(r) ELSE <<>>>>],
         bors |-> [k \in 1..Cardinality(DOMAIN bors) |->
                      LET b == SetToSortSeq(DOMAIN bors, <)[k] IN <<b, RefView(bors[b])[4]>>]]
Emit == CSVWrite("%1$s", <<ToJson([h |-> hist', x |-> Seen'])>>, IOEnv.GEN)
Done == /\ hist' = Append(hist, last') /\ CodeCan /\ Emit

GenInit == Init /\ hist = <<>>
GenNext == Len(hist) < MaxCalls /\ Next /\ Done
GenSpec == GenInit /\ [][GenNext]_gvars

\* the slice of the n-th call
Solo(l) == [len |-> l, k |-> KSolo, s |-> Len(hist) + 1, lo |-> 0]
AllInsert == \E t \in DOMAIN trees, l \in Lens :
  Alive(t) /\ \E i \in 0..Len(flat[t]) : InsertSlice(t, i, Solo(l), IF Refs = {} THEN -1 ELSE Len(hist))
AllClone == Cardinality(DOMAIN trees) < MaxTrees /\ DoClone
AllDrop == \E t \in DOMAIN trees : Cardinality(DOMAIN trees) = MaxTrees /\ (\E u \in DOMAIN trees : u # t /\ Alive(u))
              /\ DropTree(t) /\ UNCHANGED <<flat, spot>> /\ last' = <<"drop", t>>
AllNext == Len(hist) < MaxCalls
           /\ (IF trees = Empty THEN DoNewEmpty ELSE AllInsert \/ (MaxTrees > 1 /\ (AllClone \/ AllDrop)))
           /\ Done
AllSpec == GenInit /\ [][AllNext]_gvars
=============================================================================

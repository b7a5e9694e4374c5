------------------------------- MODULE RleApi -------------------------------
(* The state machine behind the public interface: several trees, the           *)
(* references into them and the borrows held through references.  One action    *)
(* per public call that changes something, one operator per call that only      *)
(* reads.                                                                       *)
EXTENDS RunSeq, FiniteSets, TLC

VARIABLES
  trees,   \* tree -> [runs, alive, held, fresh]; `held` counts the borrows into the tree
  refs,    \* reference -> [t, id]
  bors     \* borrow -> reference it was taken through

apivars == <<trees, refs, bors>>

Empty == [x \in {} |-> x]
ApiInit == trees = Empty /\ refs = Empty /\ bors = Empty

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

Alive(t) == t \in DOMAIN trees /\ trees[t].alive
\* the content of a tree can be read for as long as the tree exists or borrows are held
Readable(t) == t \in DOMAIN trees /\ (trees[t].alive \/ trees[t].held > 0)
RunsOf(t) == trees[t].runs
Valid(r) == r \in DOMAIN refs /\ Readable(refs[r].t)

RunIndex(runs, id) == CHOOSE k \in 1..Len(runs) : runs[k].id = id

(* ---- actions -------------------------------------------------------------- *)
NewEmpty(t) ==
  /\ t \notin DOMAIN trees
  /\ trees' = Put(trees, t, [runs |-> <<>>, alive |-> TRUE, held |-> 0, fresh |-> 1])
  /\ UNCHANGED <<refs, bors>>

New(t, d) ==
  /\ t \notin DOMAIN trees /\ Lt(Zero, d.len)
  /\ trees' = Put(trees, t, [runs |-> <<[d |-> d, id |-> 1]>>, alive |-> TRUE, held |-> 0, fresh |-> 2])
  /\ UNCHANGED <<refs, bors>>

InsertOk(t, i, d) == /\ Le(Zero, i) /\ Le(i, Size(RunsOf(t))) /\ Lt(Zero, d.len)

\* r = -1: no reference asked for
Insert(t, i, d, mayJoin, r) ==
  /\ Alive(t) /\ trees[t].held = 0 /\ InsertOk(t, i, d)
  /\ LET ins == Inserted(RunsOf(t), i, d, mayJoin, trees[t].fresh)
         moved == [x \in DOMAIN refs |-> IF refs[x].t = t /\ ins.gone # 0 /\ refs[x].id = ins.gone
                                         THEN [refs[x] EXCEPT !.id = ins.id] ELSE refs[x]]
     IN /\ trees' = [trees EXCEPT ![t].runs = ins.runs, ![t].fresh = ins.fresh]
        /\ refs' = IF r = -1 THEN moved ELSE Put(moved, r, [t |-> t, id |-> ins.id])
        /\ r # -1 => r \notin DOMAIN refs
  /\ UNCHANGED bors

\* a call that is rejected, or an insertion while borrows are held
Rejected == UNCHANGED apivars
Blocked(t) == Alive(t) /\ trees[t].held > 0 /\ Rejected

\* a new tree made of a list of slices, appended one after the other
Appended(ds, mayJoin) ==
  FoldLeft(LAMBDA st, d : LET ins == Inserted(st.runs, Size(st.runs), d, mayJoin, st.fresh) IN [runs |-> ins.runs, fresh |-> ins.fresh],
           [runs |-> <<>>, fresh |-> 1], ds)
FromList(t, ds, mayJoin) ==
  /\ t \notin DOMAIN trees /\ \A k \in 1..Len(ds) : Lt(Zero, ds[k].len)
  /\ LET st == Appended(ds, mayJoin) IN trees' = Put(trees, t, [runs |-> st.runs, alive |-> TRUE, held |-> 0, fresh |-> st.fresh])
  /\ UNCHANGED <<refs, bors>>

CloneTree(t, t2) ==
  /\ Alive(t) /\ t2 \notin DOMAIN trees
  /\ trees' = Put(trees, t2, [trees[t] EXCEPT !.held = 0])
  /\ UNCHANGED <<refs, bors>>

DropTree(t) ==
  /\ Alive(t)
  /\ trees' = [trees EXCEPT ![t].alive = FALSE, ![t].runs = IF trees[t].held = 0 THEN <<>> ELSE @]
  /\ UNCHANGED <<refs, bors>>

MakeRef(t, i, r) ==
  /\ Alive(t) /\ r \notin DOMAIN refs /\ Le(Zero, i) /\ Lt(i, Size(RunsOf(t)))
  /\ refs' = Put(refs, r, [t |-> t, id |-> RunsOf(t)[Locate(Starts(RunsOf(t)), i)].id])
  /\ UNCHANGED <<trees, bors>>

CloneRef(r, r2) ==
  /\ r \in DOMAIN refs /\ r2 \notin DOMAIN refs
  /\ refs' = Put(refs, r2, refs[r])
  /\ UNCHANGED <<trees, bors>>

DropRef(r) ==
  /\ r \in DOMAIN refs /\ \A b \in DOMAIN bors : bors[b] # r
  /\ refs' = Without(refs, r)
  /\ UNCHANGED <<trees, bors>>

Take(b, r) ==
  /\ bors' = Put(bors, b, r)
  /\ trees' = [trees EXCEPT ![refs[r].t].held = @ + 1]
  /\ UNCHANGED refs
TakeBorrow(r, b) == Valid(r) /\ b \notin DOMAIN bors /\ Take(b, r)
NoBorrow(r) == r \in DOMAIN refs /\ ~Valid(r) /\ UNCHANGED apivars
CloneBorrow(b, b2) == b \in DOMAIN bors /\ b2 \notin DOMAIN bors /\ Take(b2, bors[b])

DropBorrow(b) ==
  /\ b \in DOMAIN bors
  /\ LET t == refs[bors[b]].t  last == trees[t].held = 1 IN
     trees' = [trees EXCEPT ![t].held = @ - 1,
                            ![t].runs = IF last /\ ~trees[t].alive THEN <<>> ELSE @]
  /\ bors' = Without(bors, b)
  /\ UNCHANGED refs

(* ---- observations ---------------------------------------------------------- *)
GetView(t, i) == LET b == Starts(RunsOf(t)) IN View(RunsOf(t), b, Locate(b, i))
RefIndex(r) == RunIndex(RunsOf(refs[r].t), refs[r].id)
RefView(r) == LET runs == RunsOf(refs[r].t) IN View(runs, Starts(runs), RefIndex(r))
\* What a reference says when asked from inside user code, called while tree t is being inserted
\* into ("insert") or its content destroyed ("end"): whether it is valid, whether it can be used
InsideValid(t, during, r) == IF refs[r].t = t THEN during = "insert" ELSE Valid(r)
InsideUsable(t, r) == refs[r].t # t /\ Valid(r)
\* number of slices that must be alive (trees that share nothing)
RECURSIVE SumLens(_)
SumLens(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN Len(trees[t].runs) + SumLens(S \ {t})
HeldSlices == SumLens({t \in DOMAIN trees : Readable(t)})
PendingSlices == SumLens({t \in DOMAIN trees : Readable(t) /\ ~trees[t].alive})

(* ---- invariants of the design ------------------------------------------------ *)
IdsUnique == \A t \in DOMAIN trees :
               Cardinality({RunsOf(t)[k].id : k \in 1..Len(RunsOf(t))}) = Len(RunsOf(t))
\* every reference to a readable tree denotes exactly one of its runs
RefsDenote == \A r \in DOMAIN refs : Valid(r) =>
               Cardinality({k \in 1..Len(RunsOf(refs[r].t)) : RunsOf(refs[r].t)[k].id = refs[r].id}) = 1
HeldCounts == \A t \in DOMAIN trees :
               trees[t].held = Cardinality({b \in DOMAIN bors : refs[bors[b]].t = t})
BorrowsThroughRefs == \A b \in DOMAIN bors : bors[b] \in DOMAIN refs /\ Valid(bors[b])
DroppedIsGone == \A t \in DOMAIN trees : ~Readable(t) => RunsOf(t) = <<>>
PositiveRuns == \A t \in DOMAIN trees : \A k \in 1..Len(RunsOf(t)) : Lt(Zero, RunsOf(t)[k].d.len)
ApiInv == IdsUnique /\ RefsDenote /\ HeldCounts /\ BorrowsThroughRefs /\ DroppedIsGone /\ PositiveRuns
=============================================================================

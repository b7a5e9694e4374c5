------------------------------ MODULE MCRleApi -------------------------------
(* Exhaustive exploration of RleApi within small constants.  Two ghosts say     *)
(* independently of runs what content and references mean:                      *)
(*   flat  - the content of each tree position by position, changed only by     *)
(*           splicing (C01) and copied by cloning (C10);                        *)
(*   spot  - where the run starts that a reference denotes, followed by        *)
(*           arithmetic on positions alone (C08).                              *)
EXTENDS RleApi, TLCExt, IOUtils, Json

CONSTANTS Trees, Refs, Bors, MaxSize, MaxLen, Kinds, Sources, MayJoin, MaxRuns

VARIABLES flat, spot, last
vars == <<apivars, flat, spot, last>>
\* `last` only labels the transition, and identities matter only through the references that use
\* them; both are hidden from fingerprints
RefKey(r) == IF Valid(r) THEN RefIndex(r) ELSE 0
StateView == <<[t \in DOMAIN trees |-> <<Data(trees[t].runs), trees[t].alive, trees[t].held>>],
               [r \in DOMAIN refs |-> <<refs[r].t, RefKey(r)>>], bors, flat,
               [r \in DOMAIN refs |-> IF Valid(r) THEN spot[r] ELSE 0]>>

Add0(x, y) == x + y
SubL0(x, y) == x - y
Lt0(x, y) == x < y
Cap0(x, y) == x + y <= 2

Atom(d, p) == <<d.k, d.s, IF d.k = KConst THEN 0 ELSE d.lo + p>>
Expand(d) == [p \in 1..d.len |-> Atom(d, p - 1)]
RECURSIVE Flatten(_, _)
Flatten(runs, k) == IF k > Len(runs) THEN <<>> ELSE Expand(runs[k].d) \o Flatten(runs, k + 1)
Splice(f, i, x) == SubSeq(f, 1, i) \o x \o SubSeq(f, i + 1, Len(f))

Slices == [len : 1..MaxLen, k : Kinds, s : Sources, lo : 0..1]
LawfulSlices == {d \in Slices : d.k = KConst => d.lo = 0}
Ids == DOMAIN trees
FreeTree == IF Trees \ DOMAIN trees = {} THEN -1 ELSE CHOOSE t \in Trees \ DOMAIN trees : \A u \in Trees \ DOMAIN trees : t <= u
FreeRef == IF Refs \ DOMAIN refs = {} THEN -1 ELSE CHOOSE t \in Refs \ DOMAIN refs : \A u \in Refs \ DOMAIN refs : t <= u
FreeBor == IF Bors \ DOMAIN bors = {} THEN -1 ELSE CHOOSE t \in Bors \ DOMAIN bors : \A u \in Bors \ DOMAIN bors : t <= u

Init == ApiInit /\ flat = Empty /\ spot = Empty /\ last = <<"init">>

DoNew == \E d \in LawfulSlices : LET t == FreeTree IN
  /\ t # -1 /\ New(t, d)
  /\ flat' = Put(flat, t, Expand(d)) /\ UNCHANGED spot
  /\ last' = <<"new", t, Tuple(d)>>
DoNewEmpty == LET t == FreeTree IN
  /\ t # -1 /\ NewEmpty(t)
  /\ flat' = Put(flat, t, <<>>) /\ UNCHANGED spot
  /\ last' = <<"new_empty", t>>
\* only asked at boundaries (0 < i = start of a run)
JoinsLeft(t, i, d) == LET b == Starts(RunsOf(t))  k == Locate(b, i) IN
  MayJoin /\ k > 1 /\ Joins(RunsOf(t)[k - 1].d, d)
JoinsRight(t, i, d) == LET b == Starts(RunsOf(t))  k == Locate(b, i) IN
  /\ MayJoin /\ k <= Len(RunsOf(t))
  /\ IF JoinsLeft(t, i, d) THEN Joins(Joined(RunsOf(t)[k - 1].d, d), RunsOf(t)[k].d) ELSE Joins(d, RunsOf(t)[k].d)
MovedSpots(t, i, d) ==
  LET leftStart == LET b == Starts(RunsOf(t)) IN b[Locate(b, i) - 1]
      moved(p) == IF i < p THEN p + d.len ELSE IF i > p THEN p
                  ELSE IF ~JoinsRight(t, i, d) THEN p + d.len
                  ELSE IF JoinsLeft(t, i, d) THEN leftStart ELSE p
  IN [r \in DOMAIN spot |-> IF refs[r].t = t THEN moved(spot[r]) ELSE spot[r]]
InsertSlice(t, i, d, r) ==
  LET ins == Inserted(RunsOf(t), i, d, MayJoin, trees[t].fresh) IN
  /\ Len(ins.runs) <= MaxRuns
  /\ Insert(t, i, d, MayJoin, r)
  /\ flat' = [flat EXCEPT ![t] = Splice(@, i, Expand(d))]
  /\ spot' = LET m == MovedSpots(t, i, d) IN IF r = -1 THEN m ELSE
               LET k == RunIndex(ins.runs, ins.id) IN Put(m, r, Starts(ins.runs)[k])
  /\ last' = <<"insert", t, i, Tuple(d), r>>
DoInsert == \E t \in DOMAIN trees, d \in LawfulSlices, wantRef \in BOOLEAN :
  /\ Alive(t) /\ Len(flat[t]) + d.len <= MaxSize
  /\ wantRef => FreeRef # -1
  /\ \E i \in 0..Len(flat[t]) : InsertSlice(t, i, d, IF wantRef THEN FreeRef ELSE -1)
DoBlocked == \E t \in DOMAIN trees, d \in LawfulSlices :
  /\ Blocked(t) /\ UNCHANGED <<flat, spot>> /\ last' = <<"insert", t, 0, Tuple(d), -1>>
DoClone == \E t \in DOMAIN trees : LET t2 == FreeTree IN
  /\ t2 # -1 /\ refs = Empty /\ CloneTree(t, t2)
  /\ flat' = Put(flat, t2, flat[t]) /\ UNCHANGED spot /\ last' = <<"clone", t, t2>>
DoDrop == \E t \in DOMAIN trees : DropTree(t) /\ UNCHANGED <<flat, spot>> /\ last' = <<"drop", t>>
DoMakeRef == \E t \in DOMAIN trees : LET r == FreeRef IN
  /\ r # -1 /\ Alive(t)
  /\ \E i \in 0..(Len(flat[t]) - 1) :
     /\ MakeRef(t, i, r) /\ UNCHANGED flat
     /\ spot' = LET b == Starts(RunsOf(t)) IN Put(spot, r, b[Locate(b, i)])
     /\ last' = <<"make_ref", t, i, r>>
DoCloneRef == \E r \in DOMAIN refs : LET r2 == FreeRef IN
  /\ r2 # -1 /\ CloneRef(r, r2) /\ spot' = Put(spot, r2, spot[r]) /\ UNCHANGED flat
  /\ last' = <<"clone_ref", r, r2>>
DoDropRef == \E r \in DOMAIN refs : DropRef(r) /\ spot' = Without(spot, r) /\ UNCHANGED flat /\ last' = <<"drop_ref", r>>
DoBorrow == \E r \in DOMAIN refs : LET b == FreeBor IN
  \/ b # -1 /\ TakeBorrow(r, b) /\ UNCHANGED <<flat, spot>> /\ last' = <<"borrow", r, b>>
  \/ NoBorrow(r) /\ UNCHANGED <<flat, spot>> /\ last' = <<"borrow", r, -1>>
DoCloneBorrow == \E b \in DOMAIN bors : LET b2 == FreeBor IN
  /\ b2 # -1 /\ CloneBorrow(b, b2) /\ UNCHANGED <<flat, spot>> /\ last' = <<"clone_bor", b, b2>>
DoDropBorrow == \E b \in DOMAIN bors : DropBorrow(b) /\ UNCHANGED <<flat, spot>> /\ last' = <<"drop_bor", b>>

Next == DoNew \/ DoNewEmpty \/ DoInsert \/ DoBlocked \/ DoClone \/ DoDrop \/ DoMakeRef \/ DoCloneRef
        \/ DoDropRef \/ DoBorrow \/ DoCloneBorrow \/ DoDropBorrow
Spec == Init /\ [][Next]_vars

(* ---- what the run lists have to mean ------------------------------------------ *)
\* C01: however runs are split and joined, position by position the content is the spliced one
ContentIsSpliced == \A t \in DOMAIN trees : Readable(t) => Flatten(RunsOf(t), 1) = flat[t]
\* C02: what user code refuses to join is not joined
CappedStay == \A t \in DOMAIN trees : \A k \in 1..Len(RunsOf(t)) : RunsOf(t)[k].d.k = KCapped => RunsOf(t)[k].d.len <= MaxLen
\* the comparison of contents that trace validation uses is the comparison of positions
PiecesDecide == \A t, u \in DOMAIN trees : Readable(t) /\ Readable(u) =>
   ((Pieces(Data(RunsOf(t))) = Pieces(Data(RunsOf(u)))) => (flat[t] = flat[u]))
\* C03: looking up any index gives the run that shows that position
LookupIsRight == \A t \in DOMAIN trees : Alive(t) => \A i \in 0..(Len(flat[t]) - 1) :
   LET v == GetView(t, i) IN /\ v[1] <= i /\ i < v[2] /\ v[3] = v[2] - v[1]
                             /\ Atom(Datum(v[4]), i - v[1]) = flat[t][i + 1]
\* C04: ranges
Lower == {<<"U">>} \cup {<<"I", x>> : x \in (-1)..MaxSize}
Upper == {<<"U">>} \cup {<<"I", x>> : x \in (-1)..MaxSize} \cup {<<"E", x>> : x \in (-1)..(MaxSize + 1)}
InRange(p, lo, hi) == /\ lo[1] = "I" => lo[2] <= p
                      /\ hi[1] = "I" => p <= hi[2]
                      /\ hi[1] = "E" => p < hi[2]
Overlapping(runs, lo, hi) == {k \in 1..Len(runs) : LET b == Starts(runs) IN
                                 \E p \in b[k]..(b[k + 1] - 1) : InRange(p, lo, hi)}
IterationIsRight == \A t \in DOMAIN trees : Alive(t) => \A lo \in Lower, hi \in Upper :
   LET runs == RunsOf(t)  n == Len(runs)  O == Overlapping(runs, lo, hi) IN
   RangeOk(Size(runs), lo, hi) =>
     /\ \A dir \in [1..(n + 1) -> {0, 1}] :
          LET y == Yields(runs, lo, hi, dir)  got == {k \in 1..Len(y) : y[k] # 0} IN
          /\ {y[k] : k \in got} = O /\ Cardinality(got) = Cardinality(O)
          /\ \A j, k \in got : j < k /\ dir[j] = 1 /\ dir[k] = 1 => y[j] < y[k]
          /\ \A j, k \in got : j < k /\ dir[j] = 0 /\ dir[k] = 0 => y[j] > y[k]
          /\ \A j, k \in got : dir[j] = 1 /\ dir[k] = 0 => y[j] < y[k]
          /\ \A j \in 1..Len(y) : y[j] = 0 => \A k \in j..Len(y) : y[k] = 0
     \* nothing is accepted that names a position outside
     /\ (O = {} => n = 0 \/ hi = <<"E", 0>> \/ (hi[1] # "U" /\ hi[2] < 0))
\* C08: the run a reference denotes is the one at the followed spot
RefsFollow == \A r \in DOMAIN refs : Valid(r) =>
   RefView(r)[1] = spot[r]
\* C09: nothing is destroyed while it may be looked at
BorrowedStays == \A b \in DOMAIN bors : RunsOf(refs[bors[b]].t) # <<>>

\* C23: with slices that join exactly when they are equal, the runs are the run-length encoding of the
\* content, whatever the history; so a boundary never has the same value on both sides, and no insertion
\* at a boundary joins twice
RECURSIVE Rle(_)
Rle(f) == IF f = <<>> THEN <<>> ELSE
  LET r == Rle(Front(f))  x == Last(f) IN
  IF r # <<>> /\ Last(r)[1] = x THEN [r EXCEPT ![Len(r)] = <<x, @[2] + 1>>] ELSE Append(r, <<x, 1>>)
Canonical == \A t \in DOMAIN trees : Readable(t) =>
  Rle(flat[t]) = [k \in 1..Len(RunsOf(t)) |-> <<Atom(RunsOf(t)[k].d, 0), RunsOf(t)[k].d.len>>]
OneJoinAtEdges == \A t \in DOMAIN trees, d \in LawfulSlices : Alive(t) =>
  \A k \in 2..Len(RunsOf(t)) : LET i == Starts(RunsOf(t))[k] IN ~(JoinsLeft(t, i, d) /\ JoinsRight(t, i, d))

\* C10/C15 as action properties: what an action must leave alone
Isolated == [][\A t \in DOMAIN trees : (last'[1] \in {"insert", "drop"} /\ last'[2] # t) =>
                 trees'[t] = trees[t]]_vars
BlockedChangesNothing == [][(last'[1] = "insert" /\ trees[last'[2]].held > 0) => UNCHANGED apivars]_vars
FreedWithLast == [][\A t \in DOMAIN trees : (RunsOf(t) # <<>> /\ trees'[t].runs = <<>>) =>
                      (~trees'[t].alive /\ trees'[t].held = 0)]_vars

(* ---- what is not the case (to see that the above is not vacuous) ----------------- *)
SomeDoubleJoin == ~(last[1] = "insert" /\ Cardinality(DOMAIN refs) = 2)
=============================================================================

-------------------------------- MODULE Own ---------------------------------
(* Who owns the slices of a leaf while an insertion splits and joins them, and  *)
(* what is left when a call to user code panics.  A slice is given to user code *)
(* by taking it out of its slot, which keeps a stale copy; the slot is marked   *)
(* as a hole, and only marked slots are passed over by later uses.  Unwinding   *)
(* drops whatever local variables own.                                          *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxId,      \* slices ever made
          MaxLen,     \* slots of the leaf
          MarkFirst,  \* a slot is marked as a hole before its slice is taken (FALSE: never)
          ShiftHoles, \* marks move along when slots are shifted
          Refuse,     \* slices are not taken from holes, nor from a leaf that has two
          CloneChecks, \* cloning looks at the marks
          Lies        \* user code breaks its contract: which of two slices is which is up to it.  (Where a
                      \* slice is inserted, and what joins, is up to it anyway: all choices are explored.)
SL == INSTANCE Slices

VARIABLES mem,    \* the slots, stale copies included
          holes,  \* marked slots
          hand,   \* slices owned by local variables
          pc,     \* where the operation is
          sl,     \* what happened to every slice (Slices)
          made,   \* slices made so far
          whole   \* no panic yet
vars == <<mem, holes, hand, pc, sl, made, whole>>

Idle == [at |-> "idle"]
Init == mem = <<>> /\ holes = {} /\ hand = {} /\ pc = Idle /\ sl = SL!None /\ made = 0 /\ whole = TRUE

RECURSIVE DropAll(_, _)
DropAll(s, xs) == IF xs = {} THEN s ELSE LET x == CHOOSE y \in xs : TRUE IN DropAll(SL!Step(s, "d", x), xs \ {x})
RECURSIVE UseAll(_, _)
UseAll(s, xs) == IF xs = {} THEN s ELSE LET x == CHOOSE y \in xs : TRUE IN UseAll(SL!Step(s, "u", x), xs \ {x})

\* unwinding out of the operation: the local variables are dropped
Unwind(s) == /\ sl' = DropAll(s, hand) /\ hand' = {} /\ pc' = Idle /\ whole' = FALSE /\ UNCHANGED <<mem, holes, made>>

CanTake(i) == Refuse => (i \notin holes /\ Cardinality(holes) < 2)
Mark(i) == IF MarkFirst THEN holes \cup {i} ELSE holes
Fill(i, x, m) == [m EXCEPT ![i] = x]

InsertAt(m, i, x) == SubSeq(m, 1, i) \o <<x>> \o SubSeq(m, i + 1, Len(m))
Shift(h, i) == IF ShiftHoles THEN {IF j > i THEN j + 1 ELSE j : j \in h} ELSE h
RemoveAt(m, i) == SubSeq(m, 1, i - 1) \o SubSeq(m, i + 1, Len(m))
UnShift(h, i) == {IF j > i THEN j - 1 ELSE j : j \in h \ {i}}

New == made + 1
\* ---- the caller starts an insertion -----------------------------------------
First == /\ pc = Idle /\ mem = <<>> /\ made < MaxId
         /\ mem' = <<New>> /\ made' = New /\ sl' = SL!Step(sl, "n", New) /\ UNCHANGED <<holes, hand, pc, whole>>
BeginMid(i) == /\ pc = Idle /\ made < MaxId /\ Len(mem) + 2 <= MaxLen
               /\ hand' = {New} /\ made' = New /\ sl' = SL!Step(sl, "n", New)
               /\ pc' = [at |-> "split", i |-> i, s |-> New] /\ UNCHANGED <<mem, holes, whole>>
BeginEdge(i) == /\ pc = Idle /\ made < MaxId /\ Len(mem) + 1 <= MaxLen /\ mem # <<>>
                /\ hand' = {New} /\ made' = New /\ sl' = SL!Step(sl, "n", New)
                /\ pc' = [at |-> "takeL", i |-> i, s |-> New] /\ UNCHANGED <<mem, holes, whole>>
\* ---- within a run: split it, then join left half, inserted, right half ----------
\* the split has the slice in hand (by reference), and makes another
Split == /\ pc.at = "split"
         /\ IF ~CanTake(pc.i) THEN Unwind(sl)
            ELSE pc' = [pc EXCEPT !.at = "splitting"] /\ hand' = hand \cup {mem[pc.i]} /\ holes' = Mark(pc.i) /\ UNCHANGED <<mem, sl, made, whole>>
\* (an unlawful split may leave the new slice behind and hand out the old one)
SplitOk == /\ pc.at = "splitting" /\ made < MaxId
           /\ made' = New
           /\ \E r \in IF Lies THEN {New, mem[pc.i]} ELSE {New} :
                LET l == IF r = New THEN mem[pc.i] ELSE New IN
                /\ sl' = SL!Step(SL!Step(sl, "u", mem[pc.i]), "n", New)
                /\ mem' = Fill(pc.i, l, mem)
                /\ hand' = (hand \ {mem[pc.i]}) \cup {r} /\ holes' = holes \ {pc.i}
                /\ pc' = [at |-> "midL", i |-> pc.i, s |-> pc.s, r |-> r] /\ UNCHANGED whole
SplitPanic == pc.at = "splitting" /\ Unwind(SL!Step(sl, "u", mem[pc.i]))
MidTake == /\ pc.at = "midL"
           /\ IF ~CanTake(pc.i) THEN Unwind(sl)
              ELSE pc' = [pc EXCEPT !.at = "midL2"] /\ hand' = hand \cup {mem[pc.i]} /\ holes' = Mark(pc.i) /\ UNCHANGED <<mem, sl, made, whole>>
\* a join owns both its arguments: it consumes them and makes one, or gives them back, or panics and drops them
JoinPanic(a, b) == /\ sl' = DropAll(UseAll(sl, {a, b}), hand) /\ hand' = {} /\ pc' = Idle /\ whole' = FALSE /\ UNCHANGED <<mem, holes, made>>
\* (the joined one may be one of them; which of two is given back first is up to an unlawful join)
Both(a, b) == IF Lies THEN {New, a, b} ELSE {New}
JoinOk(a, b, x) == IF x = New THEN /\ made < MaxId /\ made' = New
                                  /\ sl' = SL!Step(DropAll(UseAll(sl, {a, b}), {a, b}), "n", New)
                   ELSE UNCHANGED made /\ sl' = SL!Step(UseAll(sl, {a, b}), "d", IF x = a THEN b ELSE a)
Back(a, b) == IF Lies THEN {<<a, b>>, <<b, a>>} ELSE {<<a, b>>}
JoinErr(a, b) == sl' = UseAll(sl, {a, b}) /\ UNCHANGED made
MidJoinL == /\ pc.at = "midL2"
            /\ LET a == mem[pc.i] IN
               \/ JoinPanic(a, pc.s)
               \/ \E x \in Both(a, pc.s) :
                    JoinOk(a, pc.s, x) /\ hand' = (hand \ {a, pc.s}) \cup {x} /\ pc' = [at |-> "midR", i |-> pc.i, s |-> x, r |-> pc.r, j |-> TRUE]
                    /\ UNCHANGED <<mem, holes, whole>>
               \/ \E y \in Back(a, pc.s) :
                    JoinErr(a, pc.s) /\ hand' = (hand \ {a, pc.s}) \cup {y[2]} /\ holes' = holes \ {pc.i} /\ mem' = Fill(pc.i, y[1], mem)
                    /\ pc' = [at |-> "midR", i |-> pc.i, s |-> y[2], r |-> pc.r, j |-> FALSE] /\ UNCHANGED whole
Put(m, h, x) == /\ hand' = hand \ x /\ mem' = m /\ holes' = h /\ pc' = Idle /\ UNCHANGED whole
MidJoinR == /\ pc.at = "midR"
            /\ LET i == pc.i s == pc.s r == pc.r IN
               \/ JoinPanic(s, r)
               \/ \E x \in Both(s, r) :
                    JoinOk(s, r, x) /\ IF pc.j THEN Put(Fill(i, x, mem), holes \ {i}, {s, r}) ELSE Put(InsertAt(mem, i, x), Shift(holes, i), {s, r})
               \/ \E y \in Back(s, r) :
                    JoinErr(s, r) /\ IF pc.j THEN Put(InsertAt(Fill(i, y[1], mem), i, y[2]), Shift(holes \ {i}, i), {s, r})
                                     ELSE Put(InsertAt(InsertAt(mem, i, y[2]), i, y[1]), Shift(Shift(holes, i), i), {s, r})
\* ---- between runs i and i + 1 (either may be missing) -----------------------------
TakeL == /\ pc.at = "takeL"
         /\ IF pc.i = 0 THEN pc' = [at |-> "takeR", i |-> pc.i, s |-> pc.s, j |-> FALSE] /\ UNCHANGED <<mem, holes, hand, sl, made, whole>>
            ELSE IF ~CanTake(pc.i) THEN Unwind(sl)
            ELSE pc' = [pc EXCEPT !.at = "joinL"] /\ hand' = hand \cup {mem[pc.i]} /\ holes' = Mark(pc.i) /\ UNCHANGED <<mem, sl, made, whole>>
JoinL == /\ pc.at = "joinL"
         /\ LET a == mem[pc.i] IN
            \/ JoinPanic(a, pc.s)
            \/ \E x \in Both(a, pc.s) :
                 JoinOk(a, pc.s, x) /\ hand' = (hand \ {a, pc.s}) \cup {x} /\ pc' = [at |-> "takeR", i |-> pc.i, s |-> x, j |-> TRUE] /\ UNCHANGED <<mem, holes, whole>>
            \/ \E y \in Back(a, pc.s) :
                 JoinErr(a, pc.s) /\ hand' = (hand \ {a, pc.s}) \cup {y[2]} /\ holes' = holes \ {pc.i} /\ mem' = Fill(pc.i, y[1], mem)
                 /\ pc' = [at |-> "takeR", i |-> pc.i, s |-> y[2], j |-> FALSE] /\ UNCHANGED whole
Alone == IF pc.j THEN Put(Fill(pc.i, pc.s, mem), holes \ {pc.i}, {pc.s}) ELSE Put(InsertAt(mem, pc.i, pc.s), Shift(holes, pc.i), {pc.s})
TakeR == /\ pc.at = "takeR"
         /\ IF pc.i = Len(mem) THEN Alone /\ UNCHANGED <<sl, made>>
            ELSE IF ~CanTake(pc.i + 1) THEN Unwind(sl)
            ELSE pc' = [pc EXCEPT !.at = "joinR"] /\ hand' = hand \cup {mem[pc.i + 1]} /\ holes' = Mark(pc.i + 1) /\ UNCHANGED <<mem, sl, made, whole>>
JoinR == /\ pc.at = "joinR"
         /\ LET i == pc.i s == pc.s r == mem[pc.i + 1] IN
            \/ JoinPanic(s, r)
            \/ \E x \in Both(s, r) :
                 JoinOk(s, r, x) /\ IF pc.j THEN Put(RemoveAt(Fill(i, x, mem), i + 1), UnShift(holes \ {i}, i + 1), {s, r})
                                    ELSE Put(Fill(i + 1, x, mem), holes \ {i + 1}, {s, r})
            \/ \E y \in Back(s, r) :
                 JoinErr(s, r) /\ IF pc.j THEN Put(Fill(i, y[1], Fill(i + 1, y[2], mem)), holes \ {i, i + 1}, {s, r})
                                  ELSE Put(InsertAt(Fill(i + 1, y[2], mem), i, y[1]), Shift(holes \ {i + 1}, i), {s, r})
\* ---- other uses --------------------------------------------------------------------
Get(i) == /\ pc = Idle /\ UNCHANGED <<mem, holes, hand, pc, made, whole>>
          /\ sl' = IF i \in holes THEN sl ELSE SL!Step(sl, "r", mem[i])
\* cloning calls user code for every slice: what it made so far is dropped if that panics, and at the end here
RECURSIVE Clone(_, _)
Clone(s, k) == IF k = 0 THEN s ELSE Clone(SL!Step(s, "u", mem[k]), k - 1)
CloneTree(k) == /\ pc = Idle /\ mem # <<>> /\ UNCHANGED <<mem, holes, hand, pc, made, whole>>
                /\ sl' = IF CloneChecks /\ holes # {} THEN sl ELSE Clone(sl, k)
DropTree == /\ pc = Idle /\ mem # <<>>
            /\ sl' = LET f[k \in 0 .. Len(mem)] == IF k = 0 THEN sl ELSE IF k \in holes THEN f[k - 1] ELSE SL!Step(f[k - 1], "d", mem[k]) IN f[Len(mem)]
            /\ mem' = <<>> /\ holes' = {} /\ UNCHANGED <<hand, pc, made, whole>>

Next == \/ First \/ Split \/ SplitOk \/ SplitPanic \/ MidTake \/ MidJoinL \/ MidJoinR \/ TakeL \/ JoinL \/ TakeR \/ JoinR \/ DropTree
        \/ \E i \in 1 .. Len(mem) : BeginMid(i) \/ Get(i) \/ CloneTree(i)
        \/ \E i \in 0 .. Len(mem) : BeginEdge(i)
Spec == Init /\ [][Next]_vars

\* no slice is used, shown or dropped after it was dropped
NoReuse == sl.err = ""
\* every slice is in exactly one place
Slots == {k \in 1 .. Len(mem) : k \notin holes}
OnePlace == /\ \A j, k \in Slots : j # k => mem[j] # mem[k]
            /\ \A k \in Slots : mem[k] \notin hand
            /\ {mem[k] : k \in Slots} \cup hand \subseteq sl.live
\* without a panic nothing is lost and no hole is left
NoLoss == /\ sl.live = {mem[k] : k \in Slots} \cup hand
          /\ (pc = Idle => hand = {}) /\ (whole /\ pc = Idle => holes = {})
=============================================================================

----------------------------- MODULE TracePanic -----------------------------
(* Validates recorded histories in which a call to user code panicked.  What    *)
(* happens to every single slice is recorded (made, used by the tree, shown to  *)
(* the caller, dropped): none may be used, shown or dropped after it was        *)
(* dropped (Slices).  Of a tree that was being modified when the panic passed   *)
(* through it nothing else is expected; of all others everything that RleApi    *)
(* says.                                                                        *)
EXTENDS TraceApi
SL == INSTANCE Slices

VARIABLES slices,   \* state of the slices
          broken    \* trees a panic passed through while they were being modified, and clones of such
pvars == <<tvars, slices, broken>>

KeepApi == UNCHANGED <<apivars, ctx, paths, pend, objs, due>>

RECURSIVE LifeAll(_, _, _)
LifeAll(s, ev, k) == IF k > Len(ev) THEN s ELSE LifeAll(SL!Step(s, ev[k][1], ev[k][2]), ev, k + 1)
PLife == Is("life") /\ slices' = LifeAll(slices, Ev.ev, 1) /\ slices'.err = "" /\ KeepApi /\ UNCHANGED broken
\* t = -1: nothing was being modified
PPanic == /\ Is("panic")
          /\ broken' = IF Ev.t = -1 THEN broken ELSE broken \cup {Ev.t}
          /\ KeepApi /\ UNCHANGED slices
PLoose == Is("loose") /\ Ev.t \in broken /\ KeepApi /\ UNCHANGED <<slices, broken>>
PClone == Is("looseclone") /\ Ev.t \in broken /\ broken' = broken \cup {Ev.t2} /\ KeepApi /\ UNCHANGED slices
POver == Is("over") /\ Ev.faults = 0 /\ KeepApi /\ UNCHANGED <<slices, broken>>
PReset == Reset /\ slices' = SL!None /\ broken' = {}

Whole == IF "t" \in DOMAIN Ev THEN Ev.t \notin broken ELSE IF "r" \in DOMAIN Ev /\ Ev.r \in DOMAIN refs THEN refs[Ev.r].t \notin broken ELSE TRUE
PInit == TraceInit /\ slices = SL!None /\ broken = {}
PNext == \/ PReset \/ PLife \/ PPanic \/ PLoose \/ PClone \/ POver
         \/ l <= Len(Log) /\ Ev.op # "reset" /\ Whole /\ TraceNext /\ UNCHANGED <<slices, broken>>
PSpec == PInit /\ [][PNext]_pvars
=============================================================================

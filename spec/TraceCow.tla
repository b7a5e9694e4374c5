------------------------------ MODULE TraceCow -------------------------------
(* Validates recorded executions of several threads that use clone-on-write     *)
(* trees sharing nodes: the public calls and their results against RleApi (each *)
(* thread sees what it would see alone), and everything the threads do to nodes *)
(* and reference counts against the memory model CowMem (no races, nothing      *)
(* freed is touched, whatever order the operations could have become visible).  *)
(* Executions are recorded one step after the other, so a load returns the      *)
(* latest value; the happens-before relation is that of the memory orders used. *)
EXTENDS TraceApi
CM == INSTANCE CowMem

VARIABLES mem,   \* state of CowMem
          on     \* the record shows the operations on counts (else there is nothing to order accesses by)
cvars == <<tvars, mem, on>>

Op == Ev.op
KeepApi == UNCHANGED <<apivars, ctx, paths, pend, objs, due>>
Good(m) == m.err = ""

RECURSIVE AllocAll(_, _, _)
AllocAll(m, ns, k) == IF k > Len(ns) THEN m ELSE AllocAll(CM!Alloc(m, 0, ns[k], 0), ns, k + 1)
\* what threads synchronise through outside of the trees: starting, joining, handing a tree over
CChans == /\ Is("chans") /\ KeepApi
          /\ mem' = AllocAll(CM!MemInit(0..(Ev.threads - 1)), Ev.n, 1)
          /\ on' = Ev.mem

Acc(m, t, x) == CASE x[1] = "a" -> CM!Alloc(m, t, x[2], x[3])
                  [] x[1] = "r" -> CM!Read(m, t, x[2])
                  [] x[1] = "w" -> CM!Write(m, t, x[2])
                  [] x[1] = "f" -> CM!Free(m, t, x[2])
RECURSIVE AccAll(_, _, _, _)
AccAll(m, t, xs, k) == IF k > Len(xs) \/ ~Good(m) THEN m ELSE AccAll(Acc(m, t, xs[k]), t, xs, k + 1)
\* a node can be touched only if it was recorded how it came into being
KnownNode == Ev.n \in DOMAIN mem.node

Step(m) == mem' = m /\ Good(m) /\ UNCHANGED on /\ KeepApi
CAcc == Is("acc") /\ Step(IF on THEN AccAll(mem, Ev.t, Ev.a, 1) ELSE mem)
\* only the latest value of a count matters from here on
Latest(m, n) == IF Good(m) THEN [m EXCEPT !.node[n].msgs = <<@[Len(@)]>>, !.view = [t \in DOMAIN @ |-> [@[t] EXCEPT !.seen = [x \in {} |-> 0]]],
                 !.node[n].msgs[1].view.seen = [x \in {} |-> 0],
                 !.rel = [t \in DOMAIN @ |-> [@[t] EXCEPT !.seen = [x \in {} |-> 0]]], !.acq = [t \in DOMAIN @ |-> [@[t] EXCEPT !.seen = [x \in {} |-> 0]]]] ELSE m
CLoad == Is("load") /\ Step(IF on THEN Latest(CM!LoadAt(mem, Ev.t, Ev.n, 1, Ev.o), Ev.n) ELSE mem)
CStore == Is("store") /\ Step(IF on THEN Latest(CM!Store(mem, Ev.t, Ev.n, Ev.v, Ev.o), Ev.n) ELSE mem)
CRmw == Is("rmw") /\ Step(IF on THEN Latest(CM!Rmw(mem, Ev.t, Ev.n, Ev.w, Ev.o), Ev.n) ELSE mem)
CFence == Is("fence") /\ Step(IF on THEN CM!Fence(mem, Ev.t, Ev.o) ELSE mem)

CowInit == TraceInit /\ mem = CM!MemInit({0}) /\ on = FALSE
CowNext == \/ TraceNext /\ UNCHANGED <<mem, on>>
           \/ CChans \/ CAcc \/ CLoad \/ CStore \/ CRmw \/ CFence
CowSpec == CowInit /\ [][CowNext]_cvars
=============================================================================

------------------------------- MODULE CowMem -------------------------------
(* Memory as the threads that use clone-on-write trees see it: nodes, each with *)
(* a reference count operated on atomically and contents accessed plainly.      *)
(* The release/acquire fragment of the C++/Rust memory model, operationally:    *)
(* per count the list of its values in modification order, each with the view   *)
(* it publishes; per thread a view (what happened before its next step).        *)
(* Plain accesses and releases of memory have to be ordered by happens-before;  *)
(* the first one that is not is noted in `err`.                                 *)
EXTENDS Naturals, Sequences, FiniteSets

MaxOf(x, y) == IF x >= y THEN x ELSE y
JoinF(f, g) == [x \in DOMAIN f \cup DOMAIN g |->
                  IF x \notin DOMAIN g THEN f[x] ELSE IF x \notin DOMAIN f THEN g[x] ELSE MaxOf(f[x], g[x])]
\* clk: how much of each thread is known; seen: how far into each count's values
NoView == [clk |-> [x \in {} |-> 0], seen |-> [x \in {} |-> 0]]
JoinV(v, w) == [clk |-> JoinF(v.clk, w.clk), seen |-> JoinF(v.seen, w.seen)]
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Set(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

MemInit(T) == [ view |-> [t \in T |-> [clk |-> [u \in {t} |-> 1], seen |-> [x \in {} |-> 0]]],
                acq |-> [t \in T |-> NoView], rel |-> [t \in T |-> NoView],
                node |-> [x \in {} |-> 0], err |-> "" ]

Fail(m, e) == IF m.err = "" THEN [m EXCEPT !.err = e] ELSE m
Clk(m, t) == m.view[t].clk[t]
\* epoch <<u, c>> happened before t's next step
Before(m, t, u, c) == At(m.view[t].clk, u) >= c
AllBefore(m, t, epochs) == \A u \in DOMAIN epochs : u = t \/ Before(m, t, u, epochs[u])

\* a node that comes into being with count v; t = 0 for nodes made before the threads started
Alloc(m, t, n, v) ==
  IF n \in DOMAIN m.node /\ m.node[n].live THEN Fail(m, "a node was allocated where one is alive")
  ELSE [m EXCEPT !.node = Set(@, n, [live |-> TRUE, msgs |-> <<[v |-> v, view |-> NoView]>>,
          al |-> IF t = 0 THEN <<0, 0>> ELSE <<t, Clk(m, t)>>,
          wr |-> IF t = 0 THEN <<0, 0>> ELSE <<t, Clk(m, t)>>,
          rd |-> [x \in {} |-> 0], at |-> [x \in {} |-> 0]])]

Ordered(m, t, e) == e[1] = 0 \/ e[1] = t \/ Before(m, t, e[1], e[2])

Read(m, t, n) ==
  IF n \notin DOMAIN m.node THEN Fail(m, "read of a node that was never there")
  ELSE IF ~m.node[n].live THEN Fail(m, "read of a freed node")
  ELSE IF ~Ordered(m, t, m.node[n].wr) THEN Fail(m, "read races with a write")
  ELSE [m EXCEPT !.node[n].rd = Set(@, t, Clk(m, t))]

Write(m, t, n) ==
  IF n \notin DOMAIN m.node THEN Fail(m, "write to a node that was never there")
  ELSE IF ~m.node[n].live THEN Fail(m, "write to a freed node")
  ELSE IF ~Ordered(m, t, m.node[n].wr) THEN Fail(m, "write races with a write")
  ELSE IF ~AllBefore(m, t, m.node[n].rd) THEN Fail(m, "write races with a read")
  ELSE [m EXCEPT !.node[n].wr = <<t, Clk(m, t)>>, !.node[n].rd = [x \in {} |-> 0]]

Free(m, t, n) ==
  IF n \notin DOMAIN m.node THEN Fail(m, "freed a node that was never there")
  ELSE IF ~m.node[n].live THEN Fail(m, "freed twice")
  ELSE IF ~Ordered(m, t, m.node[n].wr) THEN Fail(m, "freed in a race with a write")
  ELSE IF ~AllBefore(m, t, m.node[n].rd) THEN Fail(m, "freed in a race with a read")
  ELSE IF ~AllBefore(m, t, m.node[n].at) THEN Fail(m, "freed in a race with an operation on its count")
  ELSE [m EXCEPT !.node[n] = [@ EXCEPT !.live = FALSE]]

IsAcq(o) == o \in {"acquire", "acqrel", "seqcst"}
IsRel(o) == o \in {"release", "acqrel", "seqcst"}

\* the count of n is touched at all
Touch(m, t, n) ==
  IF n \notin DOMAIN m.node THEN Fail(m, "operation on the count of a node that was never there")
  ELSE IF ~m.node[n].live THEN Fail(m, "operation on the count of a freed node")
  ELSE IF ~Ordered(m, t, m.node[n].al) THEN Fail(m, "operation on a count races with its creation")
  ELSE [m EXCEPT !.node[n].at = Set(@, t, Clk(m, t))]

Latest(m, n) == Len(m.node[n].msgs)
CountOf(m, n) == m.node[n].msgs[Latest(m, n)].v
\* values of the count a load by t may return
MaySee(m, t, n) == {k \in 1..Latest(m, n) : k >= At(m.view[t].seen, n)}

Take(m, t, n, k, o) ==
  LET msg == m.node[n].msgs[k]
      v1 == [m.view[t] EXCEPT !.seen = Set(@, n, k)]
  IN IF IsAcq(o) THEN [m EXCEPT !.view[t] = JoinV(v1, msg.view), !.acq[t] = JoinV(@, msg.view)]
     ELSE [m EXCEPT !.view[t] = v1, !.acq[t] = JoinV(@, msg.view)]

\* a load that returns value number k
LoadAt(m, t, n, k, o) ==
  LET m1 == Touch(m, t, n) IN IF m1.err # "" THEN m1 ELSE Take(m1, t, n, k, o)

\* a read-modify-write that puts v in the place of the latest value; it continues release sequences
Rmw(m, t, n, v, o) ==
  LET m1 == Touch(m, t, n) IN
  IF m1.err # "" THEN m1 ELSE
  LET k == Latest(m1, n)
      m2 == Take(m1, t, n, k, o)
      here == [m2.view[t] EXCEPT !.seen = Set(@, n, k + 1)]
      own == IF IsRel(o) THEN here ELSE m2.rel[t]
      msg == [v |-> v, view |-> JoinV(m1.node[n].msgs[k].view, own)]
  IN [m2 EXCEPT !.node[n].msgs = Append(@, msg),
                !.view[t] = IF IsRel(o) THEN [here EXCEPT !.clk[t] = @ + 1] ELSE here]

\* a plain store by an atomic operation: begins a new release sequence
Store(m, t, n, v, o) ==
  LET m1 == Touch(m, t, n) IN
  IF m1.err # "" THEN m1 ELSE
  LET k == Latest(m1, n)
      here == [m1.view[t] EXCEPT !.seen = Set(@, n, k + 1)]
      msg == [v |-> v, view |-> IF IsRel(o) THEN here ELSE m1.rel[t]]
  IN [m1 EXCEPT !.node[n].msgs = Append(@, msg),
                !.view[t] = IF IsRel(o) THEN [here EXCEPT !.clk[t] = @ + 1] ELSE here]

Fence(m, t, o) ==
  LET m1 == IF IsAcq(o) THEN [m EXCEPT !.view[t] = JoinV(@, m.acq[t])] ELSE m
  IN IF IsRel(o) THEN [m1 EXCEPT !.rel[t] = m1.view[t], !.view[t] = [@ EXCEPT !.clk[t] = @ + 1]] ELSE m1

\* everything t did so far happens before everything u does from now on (handing over, starting, joining)
Hand(m, t, u) == [m EXCEPT !.view[u] = JoinV(@, m.view[t]), !.view[t] = [@ EXCEPT !.clk[t] = @ + 1]]
=============================================================================

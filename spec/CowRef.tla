------------------------------- MODULE CowRef -------------------------------
(* Clone-on-write trees in the hands of several threads, in the steps of the    *)
(* implementation: one action per operation on a reference count.  A thread     *)
(* clones, changes, reads and drops trees of its own and hands trees to others; *)
(* the trees share nodes.                                                       *)
(*  change: on the way down, a node is used as it is if its count is read as    *)
(*    one, otherwise it is copied: its children's counts are incremented, the   *)
(*    copy takes its place, and it is released.                                 *)
(*  drop/release: decrement; who takes the count from one to zero re-reads it,  *)
(*    frees the node and releases its children.                                 *)
EXTENDS CowMem, TLC

CONSTANTS Threads,      \* numbers from 1
          Height,       \* 0: a leaf only
          Fan,          \* children of an inner node
          Budget,       \* thread -> number of operations it may still start
          MaxNodes,     \* nodes that can ever be allocated
          MaxTrees,     \* trees of a thread at a time
          Inc, Dec, Uniq, Zero,   \* memory orders
          Variant       \* "": as the implementation does; otherwise a deliberately wrong variant

VARIABLES mem, node, own, th, budget, want
vars == <<mem, node, own, th, budget, want>>
\* node: node -> [kids, val]; own: thread -> sequence of roots;
\* want: thread -> sequence of contents its trees ought to have; th: what a thread is doing

RECURSIVE Leaves(_)
Leaves(h) == IF h = 0 THEN 1 ELSE Fan * Leaves(h - 1)
\* the initial tree: nodes numbered so that the children of a node at height h follow it
RECURSIVE SizeOf(_)
SizeOf(h) == IF h = 0 THEN 1 ELSE 1 + Fan * SizeOf(h - 1)
RECURSIVE Build(_, _, _)
Build(r, h, first) == IF h = 0 THEN (r :> [kids |-> <<>>, val |-> <<0, first>>]) ELSE
  LET kid(i) == r + 1 + (i - 1) * SizeOf(h - 1)
      F[i \in 0..Fan] == IF i = 0 THEN (r :> [kids |-> [j \in 1..Fan |-> kid(j)], val |-> <<0, 0>>])
                         ELSE F[i - 1] @@ Build(kid(i), h - 1, first + (i - 1) * Leaves(h - 1))
  IN F[Fan]
Content0 == [i \in 1..Leaves(Height) |-> <<0, i>>]

Idle == [pc |-> "idle"]
\* every thread starts with one clone of the same tree
RECURSIVE AllocAll(_, _, _)
AllocAll(m, k, n) == IF k > n THEN m ELSE AllocAll(Alloc(m, 0, k, IF k = 1 THEN Cardinality(Threads) ELSE 1), k + 1, n)
Init ==
  /\ node = Build(1, Height, 1)
  /\ mem = AllocAll(MemInit(Threads), 1, SizeOf(Height))
  /\ own = [t \in Threads |-> <<1>>]
  /\ want = [t \in Threads |-> <<Content0>>]
  /\ th = [t \in Threads |-> Idle]
  /\ budget = Budget

RECURSIVE Flat(_)
Flat(n) == IF node[n].kids = <<>> THEN <<node[n].val>> ELSE
  LET F[i \in 0..Len(node[n].kids)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o Flat(node[n].kids[i]) IN F[Len(node[n].kids)]
RECURSIVE Reach(_)
Reach(n) == {n} \cup UNION {Reach(node[n].kids[i]) : i \in 1..Len(node[n].kids)}
RECURSIVE ReadAll(_, _, _)
ReadAll(m, t, S) == IF S = {} THEN m ELSE LET n == CHOOSE n \in S : TRUE IN ReadAll(Read(m, t, n), t, S \ {n})

Live == {n \in DOMAIN node : mem.node[n].live}
Begin(t) == th[t].pc = "idle" /\ budget[t] > 0 /\ budget' = [budget EXCEPT ![t] = @ - 1]
Step(t, s) == th' = [th EXCEPT ![t] = s]
RemoveAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

(* ---- operations ----------------------------------------------------------- *)
Clone(t) == \E k \in 1..Len(own[t]) :
  /\ Begin(t) /\ Len(own[t]) < MaxTrees
  /\ mem' = Rmw(mem, t, own[t][k], CountOf(mem, own[t][k]) + 1, Inc)
  /\ own' = [own EXCEPT ![t] = Append(@, own[t][k])]
  /\ want' = [want EXCEPT ![t] = Append(@, want[t][k])]
  /\ UNCHANGED <<node, th>>

ReadOp(t) == \E k \in 1..Len(own[t]) :
  /\ Begin(t)
  /\ mem' = LET m == ReadAll(mem, t, Reach(own[t][k])) IN
            IF Flat(own[t][k]) = want[t][k] THEN m ELSE Fail(m, "a thread read what it would not have read alone")
  /\ UNCHANGED <<node, own, th, want>>

Drop(t) == \E k \in 1..Len(own[t]) :
  /\ Begin(t)
  /\ Step(t, [pc |-> "dec", stack |-> <<own[t][k]>>, then |-> "idle"])
  /\ own' = [own EXCEPT ![t] = RemoveAt(@, k)] /\ want' = [want EXCEPT ![t] = RemoveAt(@, k)]
  /\ UNCHANGED <<mem, node>>

Give(t) == \E u \in Threads \ {t}, k \in 1..Len(own[t]) :
  /\ th[u].pc = "idle" /\ Begin(t) /\ Len(own[u]) < MaxTrees
  /\ mem' = Hand(mem, t, u)
  /\ own' = [own EXCEPT ![t] = RemoveAt(@, k), ![u] = Append(@, own[t][k])]
  /\ want' = [want EXCEPT ![t] = RemoveAt(@, k), ![u] = Append(@, want[t][k])]
  /\ UNCHANGED <<node, th>>

\* change leaf number `leaf` of a tree
Change(t) == \E k \in 1..Len(own[t]), leaf \in 1..Leaves(Height) :
  /\ Begin(t)
  /\ Step(t, [pc |-> "uniq", n |-> own[t][k], up |-> 0, i |-> k, h |-> Height, k |-> k, leaf |-> leaf - 1,
              copied |-> {}, others |-> UNION {UNION {Reach(own[u][j]) : j \in {j \in 1..Len(own[u]) : u # t \/ j # k}} : u \in Threads}])
  /\ want' = [want EXCEPT ![t][k][leaf] = <<t, budget[t]>>]
  /\ UNCHANGED <<mem, node, own>>

\* the node is the thread's own: write it, go on below it
Below(t, s, n, m) ==
  IF node'[n].kids = <<>>
  THEN /\ mem' = Write(m, t, n) /\ Step(t, Idle)
  ELSE LET per == Leaves(s.h - 1)  i == (s.leaf \div per) + 1 IN
       /\ mem' = Write(m, t, n)
       /\ Step(t, [s EXCEPT !.pc = "uniq", !.n = node'[n].kids[i], !.up = n, !.i = i, !.h = s.h - 1, !.leaf = s.leaf % per])
NewVal(t) == <<t, budget[t] + 1>>
SetVal(t, nd, n) == IF nd[n].kids = <<>> THEN [nd EXCEPT ![n].val = NewVal(t)] ELSE nd

Fresh == IF Cardinality(DOMAIN node) >= MaxNodes THEN 0 ELSE Cardinality(DOMAIN node) + 1

IsUnique(t) == LET s == th[t] IN s.pc = "uniq" /\ UNCHANGED <<own, budget, want>> /\
  \E k \in MaySee(mem, t, s.n) :
    LET m == LoadAt(mem, t, s.n, k, Uniq)  v == mem.node[s.n].msgs[k].v IN
    IF v = 1 \/ Variant = "never copies"
    THEN /\ node' = SetVal(t, node, s.n) /\ Below(t, s, s.n, m)
    ELSE /\ mem' = Read(m, t, s.n) /\ UNCHANGED node
         /\ Step(t, [todo |-> node[s.n].kids] @@ [s EXCEPT !.pc = IF Variant = "releases first" THEN "release" ELSE "inc"])

\* the copy takes the place of the node
Swap(t, s, m) ==
  LET c == Fresh  m1 == Alloc(m, t, c, 1)
      m2 == IF s.up = 0 THEN m1 ELSE Write(m1, t, s.up)
      nd == Set(node, c, node[s.n])
      nd1 == IF s.up = 0 THEN nd ELSE [nd EXCEPT ![s.up].kids[s.i] = c]
  IN /\ c # 0
     /\ mem' = m2 /\ node' = nd1
     /\ own' = IF s.up = 0 THEN [own EXCEPT ![t][s.i] = c] ELSE own
     /\ Step(t, [pc |-> IF Variant = "releases first" THEN "go" ELSE "dec", stack |-> <<s.n>>, then |-> "go",
                 c |-> [s EXCEPT !.n = c, !.copied = @ \cup {s.n}]])

IncChild(t) == LET s == th[t] IN s.pc = "inc" /\ UNCHANGED <<budget, want>> /\
  IF s.todo = <<>> \/ Variant = "does not count children" THEN Swap(t, s, mem)
  ELSE LET m == Rmw(mem, t, Head(s.todo), CountOf(mem, Head(s.todo)) + 1, Inc) IN
       IF Len(s.todo) = 1 THEN Swap(t, s, m)
       ELSE /\ mem' = m /\ Step(t, [s EXCEPT !.todo = Tail(@)]) /\ UNCHANGED <<node, own>>

\* (variant) the old node is released before its children are counted
ReleaseFirst(t) == LET s == th[t] IN s.pc = "release" /\
  /\ Step(t, [pc |-> "dec", stack |-> <<s.n>>, then |-> "back", c |-> [s EXCEPT !.pc = "inc"]])
  /\ UNCHANGED <<mem, node, own, budget, want>>

Popped(t, s, stack, m) ==
  IF stack # <<>> THEN mem' = m /\ Step(t, [s EXCEPT !.pc = "dec", !.stack = stack]) /\ UNCHANGED node
  ELSE IF s.then = "idle" THEN mem' = m /\ Step(t, Idle) /\ UNCHANGED node
  ELSE IF s.then = "back" THEN mem' = m /\ Step(t, s.c) /\ UNCHANGED node
  ELSE node' = SetVal(t, node, s.c.n) /\ Below(t, s.c, s.c.n, m)
Go(t) == LET s == th[t] IN s.pc = "go" /\ UNCHANGED <<own, budget, want>> /\ node' = SetVal(t, node, s.c.n) /\ Below(t, s.c, s.c.n, mem)

Decrement(t) == LET s == th[t] IN s.pc = "dec" /\ UNCHANGED <<own, budget, want>> /\
  LET n == Head(s.stack)  v == CountOf(mem, n)  m == Rmw(mem, t, n, v - 1, Dec) IN
  IF v = 1 THEN /\ mem' = m /\ Step(t, [s EXCEPT !.pc = "zero"]) /\ UNCHANGED node
  ELSE Popped(t, s, Tail(s.stack), m)

Destroy(t) == LET s == th[t] IN s.pc = "zero" /\ UNCHANGED <<own, budget, want>> /\
  LET n == Head(s.stack) IN
  \E k \in MaySee(mem, t, n) :
    LET m == Free(Write(IF Variant = "no second load" THEN mem ELSE LoadAt(mem, t, n, k, Zero), t, n), t, n) IN
    Popped(t, s, (IF Variant = "forgets children" THEN <<>> ELSE node[n].kids) \o Tail(s.stack), m)

Next == mem.err = "" /\ \E t \in Threads :
          Clone(t) \/ ReadOp(t) \/ Drop(t) \/ Give(t) \/ Change(t) \/ IsUnique(t) \/ IncChild(t) \/ ReleaseFirst(t) \/ Decrement(t) \/ Destroy(t) \/ Go(t)
Spec == Init /\ [][Next]_vars

(* ---- properties ----------------------------------------------------------- *)
\* C11: nothing races, nothing freed is touched, every thread sees its own content
NoError == mem.err = ""
Roots == UNION {{<<t, k>> : k \in 1..Len(own[t])} : t \in Threads}
Alone == \A t \in Threads : th[t].pc = "idle" => \A k \in 1..Len(own[t]) : Flat(own[t][k]) = want[t][k]
\* what a thread has is alive at all times
Alive == \A x \in Roots : Reach(own[x[1]][x[2]]) \subseteq Live
\* no leak: at rest the counts are the numbers of pointers, and what is alive is reachable
Pointers(n) == Cardinality({x \in Roots : own[x[1]][x[2]] = n})
             + Cardinality({p \in Live \X (1..Fan) : p[2] <= Len(node[p[1]].kids) /\ node[p[1]].kids[p[2]] = n})
AtRest == \A t \in Threads : th[t].pc = "idle"
Counted == AtRest => /\ \A n \in Live : CountOf(mem, n) = Pointers(n)
                     /\ Live = UNION {Reach(own[x[1]][x[2]]) : x \in Roots}
\* C12: only what other trees could reach is copied, and of that only the way down
Copied(t) == IF "copied" \in DOMAIN th[t] THEN th[t].copied ELSE IF "c" \in DOMAIN th[t] THEN th[t].c.copied ELSE {}
Others(t) == IF "others" \in DOMAIN th[t] THEN th[t].others ELSE IF "c" \in DOMAIN th[t] THEN th[t].c.others ELSE {}
CopiesPath == \A t \in Threads : Cardinality(Copied(t)) <= Height + 1
CopiesShared == Cardinality(Threads) = 1 => \A t \in Threads : Copied(t) \subseteq Others(t)
=============================================================================

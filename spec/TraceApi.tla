------------------------------ MODULE TraceApi -------------------------------
(* Validates recorded histories of the real code against RleApi and Shape.      *)
(* The trace file holds one event per public call, with its arguments and all   *)
(* of its results; several histories follow each other, separated by "reset".   *)
(* Arguments drive the actions of RleApi; results are compared as far as        *)
(* `Aspects` asks for (each property has its own set of aspects).               *)
EXTENDS RleApi, Shape, Share, Json, IOUtils, TLCExt

CONSTANT Aspects   \* subset of AllAspects

VARIABLES l,      \* next event
          ctx,    \* parameterisation of the current history
          paths,  \* tree -> paths of its runs as last read, if nothing has changed since
          pend,   \* tree -> <<index, path>> produced by the last insertion into it
          objs,   \* tree -> objects that held its slices when last looked at
          due     \* what the last insertion into a tree with shared nodes must have left alone
tvars == <<apivars, l, ctx, paths, pend, objs, due>>

AllAspects == {"calls", "content", "runs", "get", "iter", "path", "shape", "ref", "bor", "acct", "bad", "clone", "fault", "serde", "share", "cost"}
ASSUME Aspects \subseteq AllAspects
A(x) == x \in Aspects
AnyOf(S) == S \cap Aspects # {}
\* evaluated as a value (TLC unfolds a quantifier inside an action call by call, too deep for large trees)
Fact(x) == x = TRUE

Log == ndJsonDeserialize(IOEnv.TRACE)
Ev == Log[l]
Is(op) == l <= Len(Log) /\ Log[l].op = op /\ l' = l + 1
KeepSh == UNCHANGED <<objs, due>>
KeepAux == UNCHANGED <<ctx, paths, pend>> /\ KeepSh
Known(f, t) == t \in DOMAIN f
NoPath == <<-1>>

(* index arithmetic: integers, or elements of the discrete Heisenberg group *)
IntAdd(x, y) == x + y
IntSubL(x, y) == x - y
IntLt(x, y) == x < y
IntCap(x, y) == x + y <= 4
GMul(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3] + x[1] * y[2]>>
GInv(x) == <<0 - x[1], 0 - x[2], x[1] * x[2] - x[3]>>
HeSubL(x, y) == GMul(GInv(y), x)
HeSubR(x, y) == GMul(x, GInv(y))
HeLt(x, y) == \/ x[1] < y[1]
              \/ x[1] = y[1] /\ x[2] < y[2]
              \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
HeZero == <<0, 0, 0>>
HeCap(x, y) == FALSE

TraceInit == ApiInit /\ l = 1 /\ ctx = [op |-> "none"] /\ paths = Empty /\ pend = Empty /\ objs = Empty /\ due = <<>>

Reset == /\ Is("reset")
         /\ ctx' = Ev
         /\ trees' = Empty /\ refs' = Empty /\ bors' = Empty /\ paths' = Empty /\ pend' = Empty /\ objs' = Empty /\ due' = <<>>

TNew == /\ Is("new") /\ Ev.out = "ok" /\ New(Ev.t, Datum(Ev.new)) /\ KeepAux
TNewEmpty == /\ Is("new_empty") /\ Ev.out = "ok" /\ NewEmpty(Ev.t) /\ KeepAux

TInsert ==
  /\ Is("insert")
  /\ Ev.out = "ok"
  /\ Insert(Ev.t, Ev.i, Datum(Ev.new), ctx.j, Ev.ref)
  /\ LET ins == Inserted(RunsOf(Ev.t), Ev.i, Datum(Ev.new), ctx.j, trees[Ev.t].fresh) IN
     /\ A("calls") => Ev.sp = ins.splits /\ Ev.jn = ins.joins
     /\ A("content") => Ev.size = Size(ins.runs)
     /\ A("runs") => Ev.n = Len(ins.runs)
     /\ A("cost") /\ "cost" \in DOMAIN Ev => Ev.cost <= InsertCost(Len(ins.runs), ctx.m)
  /\ paths' = Without(paths, Ev.t)
  /\ pend' = IF Ev.path = NoPath THEN Without(pend, Ev.t) ELSE Put(pend, Ev.t, <<Ev.i, Ev.path>>)
  /\ due' = IF A("share") /\ Known(objs, Ev.t) /\ Known(paths, Ev.t) /\ Len(RunsOf(Ev.t)) > 0
            THEN LET runs == RunsOf(Ev.t)  b == Starts(runs)  k == Locate(b, Ev.i)
                     foreign == UNION {{objs[t][j] : j \in 1..Len(objs[t])} : t \in DOMAIN objs \ {Ev.t}}
                     alts == Alternatives(runs, paths[Ev.t], objs[Ev.t], foreign, k, k <= Len(runs) /\ Lt(b[k], Ev.i))
                 IN <<Ev.t, {a \in alts : Ev.copies <= a.n}>>
            ELSE <<>>
  /\ UNCHANGED <<ctx, objs>>

TBlocked ==
  /\ Is("insert")
  /\ Ev.out = "panic" /\ Blocked(Ev.t)
  /\ A("bor") => Ev.size = Size(RunsOf(Ev.t)) /\ Ev.n = Len(RunsOf(Ev.t))
  /\ KeepAux

TObs ==
  /\ Is("obs")
  /\ Ev.out = "ok" /\ Alive(Ev.t) /\ UNCHANGED apivars
  /\ LET runs == RunsOf(Ev.t)
         got == [k \in 1..Len(Ev.runs) |-> Datum(Ev.runs[k][4])]
     IN
     /\ A("content") => Ev.size = Size(runs) /\ Pieces(got) = Pieces(Data(runs))
     /\ A("runs") => Ev.runs = Views(runs) /\ Ev.n = Len(runs)
     /\ IF "paths" \in DOMAIN Ev
        THEN /\ A("shape") => /\ Len(Ev.paths) = Len(Ev.runs) /\ GoodShape(Ev.paths, ctx.m)
                              \* the tree's own check of its nodes (sizes, positions, links to parents)
                              /\ "valid" \in DOMAIN Ev => Ev.valid
             /\ A("path") => /\ Len(Ev.paths) = Len(runs)
                             /\ SearchTree(Ev.paths)
                             /\ Known(pend, Ev.t) =>
                                   Ev.paths[Locate(Starts(runs), pend[Ev.t][1])] = pend[Ev.t][2]
             /\ paths' = Put(paths, Ev.t, Ev.paths)
        ELSE UNCHANGED paths
  /\ pend' = Without(pend, Ev.t)
  /\ UNCHANGED ctx /\ KeepSh

\* a path handed out by an entry (NoPath where entries cannot produce any)
EntryPathOk(t, k, p) == /\ p # NoPath /\ Known(paths, t) => p = paths[t][k]

\* what reaching a run n times may cost
Costs(n, len) == A("cost") /\ "cost" \in DOMAIN Ev => Ev.cost <= n * ReachCost(len, ctx.m)

TGet ==
  /\ Is("get")
  /\ Ev.out = "ok" /\ Alive(Ev.t)
  /\ LET runs == RunsOf(Ev.t)  b == Starts(runs)  k == Locate(b, Ev.i) IN
     /\ k <= Len(runs)
     /\ A("get") => Ev.res = View(runs, b, k)
     /\ Costs(1, Len(runs))
     /\ A("path") => /\ Ev.path # NoPath => Ev.path = Ev.cto
                     /\ Known(paths, Ev.t) => Ev.cto = paths[Ev.t][k]
  /\ IF Ev.ref = -1 THEN UNCHANGED apivars ELSE MakeRef(Ev.t, Ev.i, Ev.ref)
  /\ KeepAux

TIter ==
  /\ Is("iter")
  /\ Alive(Ev.t)
  \* an entry that was yielded may have been made a reference
  /\ IF "ref" \in DOMAIN Ev
     THEN LET y == Yields(RunsOf(Ev.t), Ev.lo, Ev.hi, Ev.dir) IN
          Ev.out = "ok" /\ y[Ev.at] # 0 /\ MakeRef(Ev.t, Starts(RunsOf(Ev.t))[y[Ev.at]], Ev.ref)
     ELSE UNCHANGED apivars
  /\ LET runs == RunsOf(Ev.t)  b == Starts(runs)  ok == RangeOk(b[Len(b)], Ev.lo, Ev.hi) IN
     /\ AnyOf({"iter", "bad"}) => /\ (Ev.out = "ok") = ok
                                  /\ Ev.out = "panic" => Ev.res = <<>>
     /\ Costs(Len(Ev.dir) + 2, Len(runs))
     /\ AnyOf({"iter", "path"}) /\ ok /\ Ev.out = "ok" =>
          LET y == Yields(runs, Ev.lo, Ev.hi, Ev.dir) IN
          /\ Len(Ev.res) = Len(y)
          /\ Fact(\A k \in 1..Len(y) :
               IF y[k] = 0 THEN Ev.res[k] = <<>>
               ELSE /\ Ev.res[k] # <<>>
                    /\ A("iter") => SubSeq(Ev.res[k], 1, 4) = View(runs, b, y[k])
                    /\ A("path") => EntryPathOk(Ev.t, y[k], Ev.res[k][5]))
  /\ KeepAux

\* The objects that hold the slices of all trees there are.  Objects are told apart by token and
\* address; no two runs of a tree share one, and an object is at one address only.
TShare ==
  /\ Is("share") /\ UNCHANGED apivars
  /\ LET now == [x \in {Ev.trees[k][1] : k \in 1..Len(Ev.trees)} |-> LET k == CHOOSE k \in 1..Len(Ev.trees) : Ev.trees[k][1] = x IN Ev.trees[k][2]]
         all == UNION {{now[t][j] : j \in 1..Len(now[t])} : t \in DOMAIN now}
     IN
     /\ DOMAIN now = {t \in DOMAIN trees : Alive(t)}
     /\ A("share") => Fact(
          /\ \A t \in DOMAIN now : Len(now[t]) = Len(RunsOf(t)) /\ Cardinality({now[t][j][1] : j \in 1..Len(now[t])}) = Len(now[t])
          /\ Cardinality({o[1] : o \in all}) = Cardinality(all)
          \* trees that were not operated on show the same objects
          /\ \A t \in DOMAIN now : Known(objs, t) /\ (due = <<>> \/ due[1] # t) /\ Len(objs[t]) = Len(now[t]) => now[t] = objs[t]
          \* an insertion copied no more than it may: what is shared stays at its place, what is not is not replaced
          /\ due # <<>> =>
               LET t == due[1]  runs == RunsOf(t) IN
               \E a \in due[2] : \A x \in a.keep :
                  \A j \in 1..Len(runs) : runs[j] = x[1] => now[t][j][1] = x[2] /\ (x[4] => now[t][j][2] = x[3]))
     /\ objs' = now
  /\ due' = <<>>
  /\ UNCHANGED <<ctx, paths, pend>>

TClone == /\ Is("clone") /\ Ev.out = "ok" /\ CloneTree(Ev.t, Ev.t2)
          /\ AnyOf({"clone", "share"}) /\ ctx.par = "cow" => Ev.copies = 0
          \* a clone shows the objects of the original
          /\ objs' = IF ctx.par = "cow" /\ Known(objs, Ev.t) THEN Put(objs, Ev.t2, objs[Ev.t]) ELSE objs
          /\ UNCHANGED <<ctx, paths, pend, due>>
TDrop == /\ Is("drop") /\ Ev.out = "ok" /\ DropTree(Ev.t) /\ KeepAux

\* the call was indeed one to be rejected, and it was
BadCall == LET s == Size(RunsOf(Ev.t)) IN
  CASE Ev.kind \in {"get", "cursor_to"} -> Lt(Ev.i, Zero) \/ Le(s, Ev.i)
    [] Ev.kind = "insert" -> Lt(Ev.i, Zero) \/ Lt(s, Ev.i) \/ Le(Ev.z, Zero) \/ trees[Ev.t].held > 0
    [] Ev.kind = "new" -> Le(Ev.z, Zero)
\* nodes hold at least M and at most 2M keys, counted in bytes
TWidth == /\ Is("width") /\ (A("bad") => Ev.out = IF Ev.w \in 1..127 THEN "ok" ELSE "panic") /\ UNCHANGED apivars /\ KeepAux
TBad == /\ Is("bad") /\ BadCall /\ (A("bad") => Ev.out = "panic") /\ Rejected /\ KeepAux

TQref ==
  /\ Is("qref")
  /\ Ev.r \in DOMAIN refs /\ UNCHANGED apivars
  /\ AnyOf({"ref", "bor", "path"}) => Ev.out = "ok"
  /\ IF Valid(Ev.r) /\ Ev.out = "ok"
     THEN LET v == RefView(Ev.r)  t == refs[Ev.r].t IN
          /\ Costs(1, Len(RunsOf(t)))
          /\ A("ref") => /\ Ev.valid = TRUE /\ Ev.range = <<v[1], v[2]>> /\ Ev.val = v[4]
          /\ A("bor") => /\ Ev.valid = TRUE /\ Ev.can = TRUE /\ Ev.val # <<>> /\ Ev.range # <<>> /\ Ev.path # NoPath
                         /\ Ev.pan = <<FALSE, FALSE, FALSE>>
          /\ A("path") => /\ Ev.path # NoPath
                          /\ Known(paths, t) => Ev.path = paths[t][RefIndex(Ev.r)]
     ELSE A("bor") => /\ Ev.valid = FALSE /\ Ev.can = FALSE /\ Ev.val = <<>> /\ Ev.range = <<>>
                      /\ Ev.path = NoPath /\ Ev.pan = <<TRUE, TRUE, TRUE>>
  /\ KeepAux
\* references of the reference model shipped with the crate: it has no other queries
TMkRef == Is("mkref") /\ Ev.out = "ok" /\ MakeRef(Ev.t, Ev.i, Ev.r) /\ KeepAux
TMref ==
  /\ Is("mref") /\ Ev.out = "ok" /\ Valid(Ev.r)
  /\ A("ref") => LET v == RefView(Ev.r) IN Ev.val = v[4] /\ Ev.range = <<v[1], v[2]>> /\ Ev.size = <<v[3]>>
  /\ UNCHANGED apivars /\ KeepAux
\* references asked from inside user code, while a tree is inserted into or its content destroyed
TInside ==
  /\ Is("inside") /\ UNCHANGED apivars
  /\ A("bor") => Fact(\A k \in 1..Len(Ev.q) :
       LET r == Ev.q[k][1]  v == InsideValid(Ev.t, Ev.during, r)  u == InsideUsable(Ev.t, r) IN
       Ev.q[k][2] = TRUE /\ Ev.q[k][3] = <<v, u, u, u, u, v>>)
  /\ KeepAux
TCloneRef == /\ Is("cloneref") /\ Ev.out = "ok" /\ CloneRef(Ev.r, Ev.r2) /\ KeepAux
TDropRef == /\ Is("dropref") /\ Ev.out = "ok" /\ DropRef(Ev.r) /\ KeepAux
TBorrow == /\ Is("borrow")
           /\ \/ Ev.out = "ok" /\ TakeBorrow(Ev.r, Ev.b)
              \/ Ev.out = "none" /\ NoBorrow(Ev.r)
           /\ KeepAux
TReadBor == /\ Is("readbor") /\ Ev.b \in DOMAIN bors
            /\ AnyOf({"ref", "bor"}) => Ev.val = RefView(bors[Ev.b])[4]
            /\ UNCHANGED apivars /\ KeepAux
TCloneBor == /\ Is("clonebor") /\ Ev.out = "ok" /\ CloneBorrow(Ev.b, Ev.b2) /\ KeepAux
TMapBor == /\ Is("mapbor") /\ Ev.out = "ok" /\ Ev.b \in DOMAIN bors /\ UNCHANGED apivars /\ KeepAux
TDropBor == /\ Is("dropbor") /\ Ev.out = "ok" /\ DropBorrow(Ev.b) /\ KeepAux

TCur ==
  /\ Is("cur")
  /\ Ev.out = "ok"
  /\ A("path") =>
       /\ \A k \in 1..Len(Ev.bounded) :
            LET cap == Ev.bounded[k][1]  got == Ev.bounded[k][2]  n == IF cap < Len(Ev.path) THEN cap ELSE Len(Ev.path) IN
            got = SubSeq(Ev.path, 1, n)
       /\ Known(paths, Ev.t) => Ev.path = paths[Ev.t][Locate(Starts(RunsOf(Ev.t)), Ev.i)]
  /\ UNCHANGED apivars /\ KeepAux

TAcct ==
  /\ Is("acct")
  /\ AnyOf({"acct", "fault"}) => Ev.faults = 0
  /\ A("acct") => /\ Ev.live = Ev.reach                    \* alive = reachable, each once
                  /\ ctx.par # "cow" => Ev.held = HeldSlices /\ Ev.live = HeldSlices
  /\ UNCHANGED apivars /\ KeepAux
TEnd ==
  /\ Is("end")
  /\ A("acct") => Ev.live = 0 /\ Ev.blocks = 0 /\ Ev.faults = 0
  /\ UNCHANGED apivars /\ KeepAux
\* the harness noticed a dead slice being used or dropped again
TFault == Is("fault") /\ ~AnyOf({"acct", "fault"}) /\ UNCHANGED apivars /\ KeepAux

\* Serialising shows the runs in order, each as its size and its slice (list and list2: the same,
\* written in two ways; hint: a length announced beforehand, if any)
TSer ==
  /\ Is("ser") /\ Ev.out = "ok" /\ Alive(Ev.t)
  /\ LET runs == RunsOf(Ev.t)  want == [k \in 1..Len(runs) |-> <<runs[k].d.len, Tuple(runs[k].d)>>] IN
     A("serde") => /\ Ev.list = want /\ Ev.list2 = want /\ Ev.cnt = Len(want)
                   /\ Ev.hint = -1 \/ Ev.hint = Len(want)
  /\ UNCHANGED apivars /\ KeepAux
\* Reading a list of runs back appends them one after the other; what is no such list is an error
TDe ==
  /\ Is("de")
  /\ IF Ev.what = "list" /\ \A k \in 1..Len(Ev.list) : Lt(Zero, Ev.list[k][1])
     THEN Ev.out = "ok" /\ FromList(Ev.t, [k \in 1..Len(Ev.list) |-> Datum(Ev.list[k][2])], ctx.j)
     ELSE Ev.out = "err" /\ Ev.left = 0 /\ UNCHANGED apivars
  /\ KeepAux

TraceNext == Reset \/ TNew \/ TNewEmpty \/ TInsert \/ TBlocked \/ TObs \/ TGet \/ TIter \/ TClone \/ TDrop \/ TBad \/ TWidth
             \/ TQref \/ TInside \/ TMkRef \/ TMref \/ TCloneRef \/ TDropRef \/ TBorrow \/ TReadBor \/ TCloneBor \/ TMapBor \/ TDropBor
             \/ TCur \/ TShare \/ TSer \/ TDe \/ TAcct \/ TEnd \/ TFault
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* how far the trace could be followed
Progress == TLCSet(1, l)
TraceAccepted ==
  IF TLCGet(1) = Len(Log) + 1 THEN PrintT(<<"ACCEPTED", Len(Log)>>)
  ELSE PrintT(<<"REJECTED", TLCGet(1), Log[TLCGet(1)]>>) /\ FALSE
=============================================================================

------------------------------- MODULE BTree --------------------------------
(* How one tree keeps its runs in nodes: keys (runs) with positions relative   *)
(* to the node, sizes of subtrees, children, links from children to parents,   *)
(* and for every run the handle its references use.  The steps are those of    *)
(* insert.rs, node.rs and fix.rs: put one or two runs into a leaf, split what  *)
(* has become too wide, hand the middle run upwards, shift what lies right of  *)
(* the change, correct sizes up to the root.  What the other modules say about *)
(* a tree is stated here as invariants of these steps: the nodes in order show *)
(* the list of runs, every position is the sum of the sizes before it (in that *)
(* order; indexes need not commute), widths are between M and 2M, leaves are   *)
(* equally deep, links, handles and cursors lead where they should.            *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS Add(_,_), SubL(_,_), SubR(_,_), Lt(_,_), Zero,
          M,
          AnySplit    \* split wherever both halves are wide enough, or only where the code does

VARIABLES heap,  \* node -> [keys, pos, size, kids, par, ix]
          root,  \* 0 if there is none
          at,    \* run -> <<node, key>>, what its references use
          list,  \* the runs that should be there, in order: [id, len]
          cur    \* what the last insertion was and the way to it that it left: [run, path]

bvars == <<heap, root, at, list, cur>>

Fresh(h) == Cardinality(DOMAIN h) + 1
Leaf(n) == n.kids = <<>>
\* what follows key k (or, for k = number of keys, the node): the end of what lies between
Upto(n, k) == IF k <= Len(n.keys) THEN n.pos[k] ELSE n.size
\* key k ends where its right child starts
KeyEnd(h, n, k) == IF Leaf(n) THEN Upto(n, k + 1) ELSE SubR(Upto(n, k + 1), h[n.kids[k + 1]].size)
KeyLen(h, n, k) == SubL(KeyEnd(h, n, k), n.pos[k])
\* where child c (from 1) starts
KidPos(h, n, c) == SubR(Upto(n, c), h[n.kids[c]].size)

\* everything that started at or after `from` starts at the same distance after `to`
Shifted(p, from, to) == Add(to, SubL(p, from))

(* ---- sizes change ---------------------------------------------------------- *)
\* child c of node n had size `old` and now has the size its node says; up to the root
RECURSIVE Resized(_, _, _, _)
Resized(h, n, c, old) ==
  IF n = 0 THEN h
  ELSE LET nd == h[n]
           start == SubR(Upto(nd, c), old)
           from == Add(start, old)
           to == Add(start, h[nd.kids[c]].size)
           nn == [nd EXCEPT !.pos = [k \in DOMAIN @ |-> IF k >= c THEN Shifted(@[k], from, to) ELSE @[k]],
                            !.size = Shifted(@, from, to)]
       IN Resized([h EXCEPT ![n] = nn], nd.par, nd.ix, nd.size)

\* run number k of node n has a new length
Relength(h, n, k, len) ==
  LET nd == h[n]
      from == KeyEnd(h, nd, k)
      to == Add(nd.pos[k], len)
      nn == [nd EXCEPT !.pos = [j \in DOMAIN @ |-> IF j > k THEN Shifted(@[j], from, to) ELSE @[j]],
                       !.size = Shifted(@, from, to)]
  IN Resized([h EXCEPT ![n] = nn], nd.par, nd.ix, nd.size)

(* ---- nodes split ------------------------------------------------------------ *)
\* how many keys stay in the left half of a leaf that has become too wide: `len` with the new ones, the
\* first of which is at (zero-based) place idx; two were put in if `two`
Halves(len, idx, two) ==
  IF AnySplit THEN {k \in M..(len - 1) : len - 1 - k >= M}
  ELSE IF two /\ len = 2 * M + 2 /\ idx <= M THEN {M + 1} ELSE {M}

Linked(h, n) == \* the children of n know that they are
  [m \in DOMAIN h |-> IF \E c \in DOMAIN h[n].kids : h[n].kids[c] = m
                      THEN [h[m] EXCEPT !.par = n, !.ix = CHOOSE c \in DOMAIN h[n].kids : h[n].kids[c] = m]
                      ELSE h[m]]
Handles(a, h, n) == \* so do the references to its runs
  [r \in DOMAIN a \cup {h[n].keys[k] : k \in DOMAIN h[n].keys} |->
     IF \E k \in DOMAIN h[n].keys : h[n].keys[k] = r THEN <<n, CHOOSE k \in DOMAIN h[n].keys : h[n].keys[k] = r>> ELSE a[r]]

\* node n keeps `l` keys, the next goes up, the others to a new node
Cut(h, n, l) ==
  LET nd == h[n]  r == Fresh(h)  w == Len(nd.keys)
      from == KeyEnd(h, nd, l + 1)
      left == [nd EXCEPT !.keys = SubSeq(@, 1, l), !.pos = SubSeq(@, 1, l),
                         !.size = nd.pos[l + 1],
                         !.kids = IF Leaf(nd) THEN <<>> ELSE SubSeq(@, 1, l + 1)]
      right == [keys |-> SubSeq(nd.keys, l + 2, w),
                pos |-> [k \in 1..(w - l - 1) |-> SubL(nd.pos[l + 1 + k], from)],
                size |-> SubL(nd.size, from),
                kids |-> IF Leaf(nd) THEN <<>> ELSE SubSeq(nd.kids, l + 2, w + 1),
                par |-> 0, ix |-> 0]
      h2 == [m \in DOMAIN h \cup {r} |-> IF m = n THEN left ELSE IF m = r THEN right ELSE h[m]]
  IN [heap |-> Linked(h2, r), up |-> nd.keys[l + 1], len |-> KeyLen(h, nd, l + 1), new |-> r]
NoCut == [up |-> 0, len |-> Zero, new |-> 0]

(* ---- the way to what was put in, from below ---------------------------------- *)
(* On the way up, `s` has besides the tree the run `ins` that was put in, the node `on` from which a way to  *)
(* it is known (0: it is itself on its way up) and that way, the children to take.                           *)
PathCut(s, n, l, cut) == \* node n was cut
  IF s.on # n THEN s
  ELSE IF s.path = <<>>
  THEN IF cut.up = s.ins THEN [s EXCEPT !.on = 0]
       ELSE IF \E k \in DOMAIN s.heap[n].keys : s.heap[n].keys[k] = s.ins THEN s
       ELSE [s EXCEPT !.on = cut.new]
  ELSE IF s.path[1] <= l + 1 THEN s
  ELSE [s EXCEPT !.on = cut.new, !.path[1] = @ - (l + 1)]
PathUp(s, n, cut) == \* what hung on n (or was its right half) now hangs on its parent
  IF s.on = 0 THEN IF cut.up = s.ins THEN [s EXCEPT !.on = s.heap[n].par] ELSE s
  ELSE IF s.on \in {n, cut.new} THEN [s EXCEPT !.path = <<s.heap[s.on].ix>> \o @, !.on = s.heap[n].par]
  ELSE s
RECURSIVE PathOut(_, _)
PathOut(s, n) == IF s.heap[n].par = 0 THEN s ELSE PathOut(PathUp(s, n, NoCut), s.heap[n].par)

(* ---- the way up ---------------------------------------------------------------- *)
(* Node n is as it should be; its size was `old`; if `cut` says so, a run and a node are to be put to the    *)
(* right of n.                                                                                               *)
RECURSIVE Up(_, _, _, _)
Up(s, n, old, cut) ==
  LET nd == s.heap[n] IN
  IF cut.new = 0 THEN {PathOut([s EXCEPT !.heap = Resized(@, nd.par, nd.ix, old)], n)}
  ELSE IF nd.par = 0
  THEN \* a new root
       LET p == Fresh(s.heap)
           pn == [keys |-> <<cut.up>>, pos |-> <<nd.size>>, size |-> Add(Add(nd.size, cut.len), s.heap[cut.new].size),
                  kids |-> <<n, cut.new>>, par |-> 0, ix |-> 0]
           h == Linked([m \in DOMAIN s.heap \cup {p} |-> IF m = p THEN pn ELSE s.heap[m]], p)
       IN {PathUp([s EXCEPT !.heap = h, !.root = p, !.at = Handles(@, h, p)], n, cut)}
  ELSE LET p == nd.par  pn == s.heap[p]  c == nd.ix
           start == SubR(Upto(pn, c), old)
           kpos == Add(start, nd.size)
           from == Add(start, old)
           to == Add(Add(kpos, cut.len), s.heap[cut.new].size)
           w == Len(pn.keys)
           pm == [pn EXCEPT !.keys = SubSeq(@, 1, c - 1) \o <<cut.up>> \o SubSeq(@, c, w),
                            !.pos = [k \in 1..(w + 1) |-> IF k < c THEN @[k] ELSE IF k = c THEN kpos ELSE Shifted(@[k - 1], from, to)],
                            !.size = Shifted(@, from, to),
                            !.kids = SubSeq(@, 1, c) \o <<cut.new>> \o SubSeq(@, c + 1, w + 1)]
           h == Linked([s.heap EXCEPT ![p] = pm], p)
           s2 == PathUp([s EXCEPT !.heap = h, !.at = Handles(@, h, p)], n, cut)
       IN IF w < 2 * M THEN Up(s2, p, pn.size, NoCut)
          ELSE UNION {LET x == Cut(h, p, l)
                          s3 == PathCut([s2 EXCEPT !.heap = x.heap, !.at = Handles(@, x.heap, x.new)], p, l, x)
                      IN Up(s3, p, pn.size, x) : l \in Halves(w + 1, c - 1, FALSE)}

\* `items` (one or two runs) are put at place idx (from 0) of leaf n
Place(s, n, idx, items) ==
  LET nd == s.heap[n]  w == Len(nd.keys)
      b == Upto(nd, idx + 1)
      mid == FoldLeft(LAMBDA acc, it : Append(acc, Add(acc[Len(acc)], it.len)), <<b>>, items)
      to == mid[Len(mid)]
      k2 == SubSeq(nd.keys, 1, idx) \o [i \in DOMAIN items |-> items[i].id] \o SubSeq(nd.keys, idx + 1, w)
      p2 == SubSeq(nd.pos, 1, idx) \o SubSeq(mid, 1, Len(items)) \o [i \in 1..(w - idx) |-> Shifted(nd.pos[idx + i], b, to)]
      h == [s.heap EXCEPT ![n] = [nd EXCEPT !.keys = k2, !.pos = p2, !.size = Shifted(@, b, to)]]
      s1 == [s EXCEPT !.heap = h, !.at = Handles(@, h, n)]
      s2 == IF s.ins = 0 THEN [s1 EXCEPT !.ins = items[1].id, !.on = n] ELSE s1
  IN IF Len(k2) <= 2 * M THEN Up(s2, n, nd.size, NoCut)
     ELSE UNION {LET x == Cut(h, n, l)
                     s3 == PathCut([s2 EXCEPT !.heap = x.heap, !.at = Handles(@, x.heap, x.new)], n, l, x)
                 IN Up(s3, n, nd.size, x) : l \in Halves(Len(k2), idx, Len(items) = 2)}

(* ---- the way down ------------------------------------------------------------ *)
\* <<"key", node, key, how far in>> if t lies inside a run, <<"gap", leaf, place>> if between two
RECURSIVE Find(_, _, _)
Find(h, n, t) ==
  LET nd == h[n]
      c == Cardinality({k \in DOMAIN nd.pos : Lt(nd.pos[k], t)})
  IN IF c > 0 /\ Lt(t, IF c > 0 THEN KeyEnd(h, nd, c) ELSE Zero) THEN <<"key", n, c, SubL(t, nd.pos[c])>>
     ELSE IF Leaf(nd) THEN <<"gap", n, c>>
     ELSE Find(h, nd.kids[c + 1], SubL(t, KidPos(h, nd, c + 1)))
\* the place right of run k of node n
RECURSIVE FirstLeaf(_, _)
FirstLeaf(h, n) == IF Leaf(h[n]) THEN n ELSE FirstLeaf(h, h[n].kids[1])
RightOf(h, n, k) == IF Leaf(h[n]) THEN <<n, k>> ELSE <<FirstLeaf(h, h[n].kids[k + 1]), 0>>

(* ---- steps -------------------------------------------------------------------- *)
Became(s) == /\ heap' = s.heap /\ root' = s.root /\ at' = s.at
             /\ cur' = [run |-> s.ins, path |-> IF s.on = s.root THEN s.path ELSE <<"lost">>]
Now == [heap |-> heap, root |-> root, at |-> at, ins |-> 0, on |-> 0, path |-> <<>>]
RECURSIVE WayTo(_, _)
WayTo(h, n) == IF h[n].par = 0 THEN <<>> ELSE Append(WayTo(h, h[n].par), h[n].ix)
FreshRun == Len(list) + 1  \* runs are never lost here
Ends == FoldLeft(LAMBDA acc, r : Append(acc, Add(acc[Len(acc)], r.len)), <<Zero>>, list)

First(len) ==
  /\ root = 0
  /\ heap' = (1 :> [keys |-> <<1>>, pos |-> <<Zero>>, size |-> len, kids |-> <<>>, par |-> 0, ix |-> 0])
  /\ root' = 1 /\ at' = (1 :> <<1, 1>>) /\ list' = <<[id |-> 1, len |-> len]>>
  /\ cur' = [run |-> 1, path |-> <<>>]

\* a slice put at the border after g runs, where it joins with nothing
Edge(g, len) ==
  /\ root # 0
  /\ LET f == Find(heap, root, Ends[g + 1])  x == [id |-> FreshRun, len |-> len] IN
     /\ Assert(f[1] = "gap", <<"a border was not found", g, heap>>)
     /\ \E s \in Place(Now, f[2], f[3], <<x>>) : Became(s)
     /\ list' = SubSeq(list, 1, g) \o <<x>> \o SubSeq(list, g + 1, Len(list))

\* run i is cut after p; what is put there joins with nothing, with the left part, or with the right part
Split(i, p, len, how) ==
  /\ root # 0 /\ Lt(Zero, p) /\ Lt(p, list[i].len)
  /\ LET f == Find(heap, root, Add(Ends[i], p))
         rest == SubL(list[i].len, p)
         here == IF how = "left" THEN Add(p, len) ELSE p
         items == CASE how = "none" -> <<[id |-> FreshRun, len |-> len], [id |-> FreshRun + 1, len |-> rest]>>
                    [] how = "left" -> <<[id |-> FreshRun, len |-> rest]>>
                    [] how = "right" -> <<[id |-> FreshRun, len |-> Add(len, rest)]>>
     IN /\ Assert(f[1] = "key" /\ heap[f[2]].keys[f[3]] = list[i].id /\ f[4] = p, <<"a run was not found", i, p, heap>>)
        /\ LET g == RightOf(heap, f[2], f[3])
               now == [Now EXCEPT !.heap = Relength(@, f[2], f[3], here)]
               \* what joined with the left part is above or beside the place where the rest goes
               s == IF how = "left" THEN [now EXCEPT !.ins = list[i].id, !.on = f[2]] ELSE now
           IN \E z \in Place(s, g[1], g[2], items) : Became(z)
        /\ list' = SubSeq(list, 1, i - 1) \o <<[list[i] EXCEPT !.len = here]>> \o items \o SubSeq(list, i + 1, Len(list))

\* a slice joins with run i, from the left or from the right
Join(i, len, how) ==
  /\ root # 0
  /\ LET z == IF how = "before" THEN Add(len, list[i].len) ELSE Add(list[i].len, len)  a == at[list[i].id] IN
     /\ heap' = Relength(heap, a[1], a[2], z)
     /\ list' = [list EXCEPT ![i].len = z]
     /\ cur' = [run |-> list[i].id, path |-> WayTo(heap, a[1])]
  /\ UNCHANGED <<root, at>>

(* ---- what holds ----------------------------------------------------------------- *)
RECURSIVE Shows(_, _)
Shows(h, n) == \* the runs of a subtree in order, as [id, len, place relative to the subtree]
  LET nd == h[n]
      kid(c) == LET k == Shows(h, nd.kids[c])  p == KidPos(h, nd, c) IN [j \in DOMAIN k |-> [k[j] EXCEPT !.p = Add(p, @)]]
      key(k) == <<[id |-> nd.keys[k], len |-> KeyLen(h, nd, k), p |-> nd.pos[k]]>>
  IN FoldLeft(LAMBDA acc, k : acc \o key(k) \o (IF Leaf(nd) THEN <<>> ELSE kid(k + 1)),
              IF Leaf(nd) THEN <<>> ELSE kid(1), [k \in DOMAIN nd.keys |-> k])
ContentOk == root # 0 => Shows(heap, root) = [i \in DOMAIN list |-> [id |-> list[i].id, len |-> list[i].len, p |-> Ends[i]]]
SizeOk == root # 0 => heap[root].size = Ends[Len(Ends)]
FirstChildOk == \A n \in DOMAIN heap : ~Leaf(heap[n]) => KidPos(heap, heap[n], 1) = Zero
LinksOk == root # 0 => /\ heap[root].par = 0
                       /\ \A n \in DOMAIN heap : \A c \in DOMAIN heap[n].kids : heap[heap[n].kids[c]].par = n /\ heap[heap[n].kids[c]].ix = c
                       /\ \A n \in DOMAIN heap : n = root \/ heap[n].par # 0
HandlesOk == /\ DOMAIN at = {list[i].id : i \in DOMAIN list}
             /\ \A r \in DOMAIN at : heap[at[r][1]].keys[at[r][2]] = r
WidthOk == \A n \in DOMAIN heap : /\ Len(heap[n].keys) <= 2 * M
                                  /\ n # root => Len(heap[n].keys) >= M
                                  /\ Len(heap[n].pos) = Len(heap[n].keys)
                                  /\ ~Leaf(heap[n]) => Len(heap[n].kids) = Len(heap[n].keys) + 1
\* the way the last insertion left leads to it
RECURSIVE Follow(_, _, _)
Follow(h, n, p) == IF p = <<>> THEN n ELSE IF p[1] \in DOMAIN h[n].kids THEN Follow(h, h[n].kids[p[1]], Tail(p)) ELSE 0
CursorOk == root # 0 => Follow(heap, root, cur.path) = at[cur.run][1]
RECURSIVE DepthOf(_, _)
DepthOf(h, n) == IF Leaf(h[n]) THEN 0 ELSE
  LET d == {DepthOf(h, h[n].kids[c]) : c \in DOMAIN h[n].kids} IN IF Cardinality(d) = 1 THEN 1 + (CHOOSE x \in d : TRUE) ELSE -100
RECURSIVE PowM(_)
PowM(d) == IF d = 0 THEN 1 ELSE (M + 1) * PowM(d - 1)
DepthOk == root # 0 => LET d == DepthOf(heap, root) IN d >= 0 /\ (d > 0 => 2 * PowM(d) - 1 <= Len(list))
TreeInv == ContentOk /\ SizeOk /\ FirstChildOk /\ LinksOk /\ HandlesOk /\ WidthOk /\ DepthOk /\ CursorOk

\* the same tree, whatever its nodes and runs are called
RECURSIVE Look(_, _)
Look(h, n) == <<h[n].pos, h[n].size, [c \in DOMAIN h[n].kids |-> Look(h, h[n].kids[c])]>>

\* What sharing relies on: the nodes a step changes lie on one way from the root, so all others may stay shared
Body(h, n) == <<h[n].keys, h[n].pos, h[n].size, h[n].kids>>
RECURSIVE Above(_, _)
Above(h, n) == IF n = 0 THEN {} ELSE {n} \cup Above(h, h[n].par)
OneWay == [][root # 0 => LET ch == {n \in DOMAIN heap : Body(heap, n) # Body(heap', n)} IN
                         \E n \in DOMAIN heap : ch \subseteq Above(heap, n)]_bvars
=============================================================================

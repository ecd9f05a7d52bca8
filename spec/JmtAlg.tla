------------------------------- MODULE JmtAlg -------------------------------
(***************************************************************************)
(* The algorithms of the implementation, as it performs them: the cache of *)
(* uncommitted nodes with its stale and frozen parts, insertion and        *)
(* deletion through internal nodes, leaves and the null root, the bulk     *)
(* insertion, freezing of a version, reading with proof, the search for    *)
(* neighbours, range proofs, iteration, and the verifiers.                 *)
(*                                                                         *)
(* The design models (MC_*.tla) check that they do what the declarative    *)
(* operators of JmtCore say, for every small tree.                         *)
(*                                                                         *)
(* A node key is <<version, sequence of nibbles>>.  Digests are terms:     *)
(* <<"z">> the placeholder, <<"l", k, v>> a leaf, <<"n", a, b>> an inner   *)
(* node of the binary tree.                                                *)
(***************************************************************************)
EXTENDS JmtCore

Z == <<"z">>
HLeaf(k, v) == <<"l", k, v>>
HNode(a, b) == <<"n", a, b>>

NoCh == [x \in {} |-> 0]
NoneN == [t |-> "none", k |-> 0, v |-> 0, ch |-> NoCh]
NullN == [t |-> "null", k |-> 0, v |-> 0, ch |-> NoCh]
LeafN(k, v) == [t |-> "leaf", k |-> k, v |-> v, ch |-> NoCh]
IntN(ch) == [t |-> "int", k |-> 0, v |-> 0, ch |-> ch]
NoNodes == [x \in {} |-> NullN]

NW(E) == 2 ^ E.W
ND(E) == E.B \div E.W    \* nibbles per key

-----------------------------------------------------------------------------
(* Internal nodes: a little binary tree over 2^W children.                 *)

InRange(ch, s, w) == {x \in DOMAIN ch : s <= x /\ x < s + w}
HasOnlyChild(ch, s, w) == w = 1 \/ (Cardinality(InRange(ch, s, w)) = 1 /\ \E x \in InRange(ch, s, w) : ch[x].leaf)
HasChildAt(ch, s, w, n) == w = 1 \/ (InRange(ch, s, w) = {n} /\ ch[n].leaf)

RECURSIVE MerkleHash(_, _, _)
MerkleHash(ch, s, w) ==
  LET in == InRange(ch, s, w)
  IN IF in = {} THEN Z
     ELSE IF HasOnlyChild(ch, s, w) THEN ch[MinSet(in)].h
     ELSE HNode(MerkleHash(ch, s, w \div 2), MerkleHash(ch, s + (w \div 2), w \div 2))

HashN(E, node) == CASE node.t = "null" -> Z
                    [] node.t = "leaf" -> HLeaf(node.k, node.v)
                    [] node.t = "int" -> MerkleHash(node.ch, 0, NW(E))
RECURSIVE SumCnt(_, _)
SumCnt(ch, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN ch[x].cnt + SumCnt(ch, S \ {x})
LeafCount(node) == CASE node.t = "null" -> 0 [] node.t = "leaf" -> 1 [] node.t = "int" -> SumCnt(node.ch, DOMAIN node.ch)
ChildOf(E, node, ver) == [h |-> HashN(E, node), ver |-> ver, leaf |-> node.t = "leaf", cnt |-> LeafCount(node)]
\* an internal node must have a child, and not a single one that is a leaf
ValidInt(ch) == DOMAIN ch # {} /\ (Cardinality(DOMAIN ch) = 1 => ~ch[CHOOSE x \in DOMAIN ch : TRUE].leaf)

ChildKey(nk, ver, n) == <<ver, Append(nk[2], n)>>

\* siblings in proofs: <<0>> nothing, <<1, k, v>> a leaf, <<2, a, b>> an inner node
SibHash(x) == CASE x[1] = 0 -> Z [] x[1] = 1 -> HLeaf(x[2], x[3]) [] x[1] = 2 -> HNode(x[2], x[3])
BuildSib(E, V, ch, nk, s, w) ==
  LET in == InRange(ch, s, w)
  IN IF in = {} THEN <<0>>
     ELSE IF HasOnlyChild(ch, s, w)
     THEN LET x == MinSet(in)
              node == V[ChildKey(nk, ch[x].ver, x)]
          IN IF node.t = "leaf" THEN <<1, node.k, node.v>>
             ELSE <<2, MerkleHash(node.ch, 0, NW(E) \div 2), MerkleHash(node.ch, NW(E) \div 2, NW(E) \div 2)>>
     ELSE <<2, MerkleHash(ch, s, w \div 2), MerkleHash(ch, s + (w \div 2), w \div 2)>>

HalfStart(n, w) == (n \div w) * w
OtherHalf(n, w) == IF (n \div w) % 2 = 0 THEN HalfStart(n, w) + w ELSE HalfStart(n, w) - w

\* down the little tree to child n: the key of the child found (NoKey if there is none) and the
\* siblings, top down.  only: stop at the only leaf of a range, whichever it is
NoKey == <<-9, <<>>>>
RECURSIVE SibLoop(_, _, _, _, _, _, _, _)
SibLoop(E, V, ch, nk, n, only, w, acc) ==
  LET sb == Append(acc, BuildSib(E, V, ch, nk, OtherHalf(n, w), w))
      s == HalfStart(n, w)
      in == InRange(ch, s, w)
  IN IF in = {} THEN [ck |-> NoKey, sb |-> sb]
     ELSE IF only /\ HasOnlyChild(ch, s, w)
          THEN LET x == MinSet(in) IN [ck |-> ChildKey(nk, ch[x].ver, x), sb |-> sb]
     ELSE IF ~only /\ HasChildAt(ch, s, w, n) THEN [ck |-> ChildKey(nk, ch[n].ver, n), sb |-> sb]
     ELSE SibLoop(E, V, ch, nk, n, only, w \div 2, sb)
ChildWithSibs(E, V, ch, nk, n, only) == SibLoop(E, V, ch, nk, n, only, NW(E) \div 2, <<>>)

\* the same without siblings
RECURSIVE OnlyLoop(_, _, _, _)
OnlyLoop(ch, nk, n, w) ==
  LET s == HalfStart(n, w)
      in == InRange(ch, s, w)
  IN IF in = {} THEN NoKey
     ELSE IF HasOnlyChild(ch, s, w) THEN LET x == MinSet(in) IN ChildKey(nk, ch[x].ver, x)
     ELSE OnlyLoop(ch, nk, n, w \div 2)
OnlyChildOf(E, ch, nk, n) == OnlyLoop(ch, nk, n, NW(E) \div 2)

Rev(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]

-----------------------------------------------------------------------------
(* The cache.                                                              *)
(*   root   key of the root node          next    version being built      *)
(*   nodes  new nodes                     stale   node keys gone stale     *)
(*   f..    the same, frozen, of earlier versions of the batch             *)
(*   disk   what storage holds            err     an assertion failed      *)

NewCache(disk, ver, pre) ==
  LET rk == <<pre, <<>>>>
  IN [root |-> IF ver = 0 THEN (IF rk \in DOMAIN disk THEN rk ELSE <<0, <<>>>>) ELSE <<ver - 1, <<>>>>,
      next |-> ver,
      nodes |-> IF ver = 0 /\ rk \notin DOMAIN disk THEN (<<0, <<>>>> :> NullN) ELSE NoNodes,
      stale |-> {}, newl |-> 0, dell |-> 0,
      fnodes |-> NoNodes, fstale |-> {}, roots |-> <<>>, stats |-> <<>>, disk |-> disk, err |-> FALSE]
\* an append starts from the root of the version itself
AppendCache(disk, ver) ==
  [root |-> <<ver, <<>>>>, next |-> ver, nodes |-> NoNodes, stale |-> {}, newl |-> 0, dell |-> 0,
   fnodes |-> NoNodes, fstale |-> {}, roots |-> <<>>, stats |-> <<>>, disk |-> disk, err |-> FALSE]

Get(c, nk) == IF nk \in DOMAIN c.nodes THEN c.nodes[nk]
              ELSE IF nk \in DOMAIN c.fnodes THEN c.fnodes[nk]
              ELSE IF nk \in DOMAIN c.disk THEN c.disk[nk] ELSE NoneN
GetOpt(c, nk) == IF nk \notin DOMAIN c.nodes /\ nk \in c.stale THEN NoneN ELSE Get(c, nk)
\* the cache as a reader
View(c) == [nk \in DOMAIN c.nodes \cup DOMAIN c.fnodes \cup DOMAIN c.disk |-> GetOpt(c, nk)]

Put(c, nk, node) ==
  [c EXCEPT !.err = @ \/ nk \in DOMAIN c.nodes \/ (node.t = "int" /\ ~ValidInt(node.ch)),
            !.nodes = (nk :> node) @@ @,
            !.newl = IF node.t = "leaf" THEN @ + 1 ELSE @]
Del(c, nk, leaf) ==
  IF nk \in DOMAIN c.nodes
  THEN [c EXCEPT !.nodes = [x \in DOMAIN @ \ {nk} |-> @[x]], !.newl = IF leaf THEN @ - 1 ELSE @]
  ELSE [c EXCEPT !.err = @ \/ nk \in c.stale, !.stale = @ \cup {nk}, !.dell = IF leaf THEN @ + 1 ELSE @]

NoPf == [leaf |-> <<>>, sb |-> <<>>]
LeafPf(node) == [leaf |-> <<node.k, node.v>>, sb |-> <<>>]

\* single-child nodes above a split, bottom up, from the node at path p of length > d
RECURSIVE Above(_, _, _, _, _, _)
Above(E, c, ver, p, node, d) ==
  IF Len(p) = d THEN [c |-> c, n |-> node]
  ELSE LET up == SubSeq(p, 1, Len(p) - 1)
           n2 == IntN(p[Len(p)] :> ChildOf(E, node, ver))
       IN Above(E, Put(c, <<ver, up>>, n2), ver, up, n2, d)

CommonNibbles(E, k, j) == E.lcp[k][j] \div E.W

InsertAtLeaf(E, c, nk, old, ver, k, v) ==
  LET d == Len(nk[2])
      cp == CommonNibbles(E, k, old.k)
  IN IF k = old.k
     THEN LET c1 == Del(c, nk, TRUE)
          IN IF v # 0 THEN [c |-> Put(c1, <<ver, nk[2]>>, LeafN(k, v)), r |-> "upd", n |-> LeafN(k, v), pf |-> LeafPf(old)]
             ELSE [c |-> c1, r |-> "gone", n |-> NullN, pf |-> LeafPf(old)]
     ELSE IF v = 0 THEN [c |-> c, r |-> "same", n |-> NullN, pf |-> LeafPf(old)]
     ELSE LET p == SubSeq(E.nib[k], 1, cp)
              a == E.nib[old.k][cp + 1]
              b == E.nib[k][cp + 1]
              c1 == Put(Put(Del(c, nk, TRUE), <<ver, Append(p, a)>>, old), <<ver, Append(p, b)>>, LeafN(k, v))
              node == IntN((a :> ChildOf(E, old, ver)) @@ (b :> ChildOf(E, LeafN(k, v), ver)))
              up == Above(E, Put(c1, <<ver, p>>, node), ver, p, node, d)
          IN [c |-> up.c, r |-> "upd", n |-> up.n, pf |-> LeafPf(old)]

RECURSIVE InsertAt(_, _, _, _, _, _)
InsertAt(E, c, nk, ver, k, v) ==
  LET node == GetOpt(c, nk)
  IN CASE node.t = "leaf" -> InsertAtLeaf(E, c, nk, node, ver, k, v)
       [] node.t \in {"null", "none"} ->
            LET c1 == IF node.t = "null" /\ (nk[1] = ver \/ v # 0) THEN Del(c, nk, FALSE) ELSE c
                c2 == [c1 EXCEPT !.err = @ \/ nk[2] # <<>>]
            IN IF v # 0 THEN [c |-> Put(c2, <<ver, <<>>>>, LeafN(k, v)), r |-> "upd", n |-> LeafN(k, v), pf |-> NoPf]
               ELSE [c |-> c2, r |-> "same", n |-> NullN, pf |-> NoPf]
       [] node.t = "int" ->
            LET n == E.nib[k][Len(nk[2]) + 1]
                there == n \in DOMAIN node.ch
                V == View(c)
                q == IF there
                     THEN LET s == ChildWithSibs(E, V, node.ch, nk, n, FALSE)
                              r == InsertAt(E, c, ChildKey(nk, node.ch[n].ver, n), ver, k, v)
                          IN [r EXCEPT !.pf.sb = @ \o Rev(s.sb)]
                     ELSE LET s == ChildWithSibs(E, V, node.ch, nk, n, TRUE)
                              lf == IF s.ck = NoKey THEN <<>> ELSE <<V[s.ck].k, V[s.ck].v>>
                              pf == [leaf |-> lf, sb |-> Rev(s.sb)]
                          IN IF v # 0
                             THEN [c |-> Put(c, ChildKey(nk, ver, n), LeafN(k, v)), r |-> "upd", n |-> LeafN(k, v), pf |-> pf]
                             ELSE [c |-> c, r |-> "same", n |-> NullN, pf |-> pf]
            IN IF q.r = "same" THEN q
               ELSE LET ch == IF q.r = "upd" THEN (n :> ChildOf(E, q.n, ver)) @@ node.ch
                              ELSE [x \in DOMAIN node.ch \ {n} |-> node.ch[x]]
                        c1 == Del(q.c, nk, FALSE)
                        nk2 == <<ver, nk[2]>>
                    IN IF DOMAIN ch = {} THEN [q EXCEPT !.c = c1, !.r = "gone"]
                       ELSE IF Cardinality(DOMAIN ch) = 1 /\ ch[CHOOSE x \in DOMAIN ch : TRUE].leaf
                       THEN LET x == CHOOSE x \in DOMAIN ch : TRUE
                                ck == ChildKey(nk, ch[x].ver, x)
                                cn == Get(c1, ck)
                            IN [q EXCEPT !.c = Put(Del(c1, ck, TRUE), nk2, cn), !.r = "upd", !.n = cn]
                       ELSE [q EXCEPT !.c = Put(c1, nk2, IntN(ch)), !.r = "upd", !.n = IntN(ch)]

PutOp(E, c, ver, k, v) ==
  LET q == InsertAt(E, c, c.root, ver, k, v)
  IN [pf |-> q.pf,
      c |-> CASE q.r = "upd" -> [q.c EXCEPT !.root = <<ver, <<>>>>]
              [] q.r = "same" -> q.c
              [] q.r = "gone" -> Put([q.c EXCEPT !.root = <<ver, <<>>>>], <<ver, <<>>>>, NullN)]

Freeze(E, c) ==
  LET have == GetOpt(c, c.root)
      rk == <<c.next, <<>>>>
      c1 == IF have.t # "none" THEN c ELSE Put([c EXCEPT !.root = rk], rk, NullN)
      h == IF have.t # "none" THEN HashN(E, have) ELSE Z
      c2 == IF c1.root[1] # c1.next /\ DOMAIN c1.nodes = {} /\ c1.stale = {}
            THEN Put([Del(c1, c1.root, have.t = "leaf") EXCEPT !.root = rk], rk, have)
            ELSE c1
      st == c2.stale \ DOMAIN c2.nodes
  IN [c2 EXCEPT !.roots = Append(@, h),
                !.stats = Append(@, <<Cardinality(DOMAIN c2.nodes), c2.newl, Cardinality(c2.stale), c2.dell>>),
                !.fnodes = c2.nodes @@ @,
                !.fstale = @ \cup {<<c2.next, x>> : x \in st},
                !.nodes = NoNodes, !.stale = {}, !.newl = 0, !.dell = 0, !.next = @ + 1]

\* one version: the changes in order, with their proofs
RECURSIVE PutOps(_, _, _, _, _)
PutOps(E, c, ver, ops, pfs) ==
  IF ops = <<>> THEN [c |-> c, pfs |-> pfs]
  ELSE LET q == PutOp(E, c, ver, ops[1][1], ops[1][2])
       IN PutOps(E, q.c, ver, Tail(ops), Append(pfs, q.pf))
\* several versions
RECURSIVE PutSets(_, _, _, _)
PutSets(E, c, sets, pfs) ==
  IF sets = <<>> THEN [c |-> c, pfs |-> pfs]
  ELSE LET q == PutOps(E, c, c.next, sets[1], <<>>)
       IN PutSets(E, Freeze(E, q.c), Tail(sets), Append(pfs, q.pfs))

-----------------------------------------------------------------------------
(* Bulk insertion: kvs is a sequence of <<key, value>> in ascending order  *)
(* without repetitions, all sharing their first d nibbles.                 *)

\* the groups that share the next nibble
Groups(E, kvs, d) ==
  LET ns == {E.nib[kvs[j][1]][d + 1] : j \in 1..Len(kvs)}
  IN [x \in ns |-> SelectSeq(kvs, LAMBDA y : E.nib[y[1]][d + 1] = x)]
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET x == MinSet(S) IN <<x>> \o SortSet(S \ {x})

RECURSIVE BCreate(_, _, _, _, _, _)
RECURSIVE BCreateAll(_, _, _, _, _, _, _, _)
BCreate(E, c, nk, ver, kvs, d) ==
  IF Len(kvs) = 1 THEN LET n == LeafN(kvs[1][1], kvs[1][2]) IN [c |-> Put(c, nk, n), n |-> n]
  ELSE LET g == Groups(E, kvs, d)
           q == BCreateAll(E, c, nk, ver, g, SortSet(DOMAIN g), d, NoCh)
       IN [c |-> Put(q.c, nk, IntN(q.ch)), n |-> IntN(q.ch)]
BCreateAll(E, c, nk, ver, g, todo, d, ch) ==
  IF todo = <<>> THEN [c |-> c, ch |-> ch]
  ELSE LET x == todo[1]
           q == BCreate(E, c, ChildKey(nk, ver, x), ver, g[x], d + 1)
       IN BCreateAll(E, q.c, nk, ver, g, Tail(todo), d, (x :> ChildOf(E, q.n, ver)) @@ ch)

RECURSIVE BLeaf(_, _, _, _, _, _, _)
RECURSIVE BLeafAll(_, _, _, _, _, _, _, _, _)
BLeaf(E, c, nk, ver, old, kvs, d) ==
  IF Len(kvs) = 1 /\ kvs[1][1] = old.k
  THEN LET n == LeafN(old.k, kvs[1][2]) IN [c |-> Put(c, nk, n), n |-> n]
  ELSE LET b == E.nib[old.k][d + 1]
           g == Groups(E, kvs, d)
           q == BLeafAll(E, c, nk, ver, old, g, SortSet(DOMAIN g), d, NoCh)
           alone == b \notin DOMAIN g
           ch == IF alone THEN (b :> ChildOf(E, old, ver)) @@ q.ch ELSE q.ch
           c1 == IF alone THEN Put(q.c, ChildKey(nk, ver, b), old) ELSE q.c
       IN [c |-> Put(c1, nk, IntN(ch)), n |-> IntN(ch)]
BLeafAll(E, c, nk, ver, old, g, todo, d, ch) ==
  IF todo = <<>> THEN [c |-> c, ch |-> ch]
  ELSE LET x == todo[1]
           ck == ChildKey(nk, ver, x)
           q == IF x = E.nib[old.k][d + 1] THEN BLeaf(E, c, ck, ver, old, g[x], d + 1)
                ELSE BCreate(E, c, ck, ver, g[x], d + 1)
       IN BLeafAll(E, q.c, nk, ver, old, g, Tail(todo), d, (x :> ChildOf(E, q.n, ver)) @@ ch)

RECURSIVE BInsert(_, _, _, _, _, _)
RECURSIVE BInsertAll(_, _, _, _, _, _, _, _, _)
BInsert(E, c, nk, ver, kvs, d) ==
  LET node == Get(c, nk)
  IN CASE node.t = "int" ->
            LET g == Groups(E, kvs, d)
                q == BInsertAll(E, Del(c, nk, FALSE), nk, ver, node.ch, g, SortSet(DOMAIN g), d, node.ch)
            IN [c |-> Put(q.c, <<ver, nk[2]>>, IntN(q.ch)), n |-> IntN(q.ch)]
       [] node.t = "leaf" -> BLeaf(E, Del(c, nk, TRUE), <<ver, nk[2]>>, ver, node, kvs, d)
       [] node.t = "null" -> BCreate(E, Del(c, nk, FALSE), <<ver, <<>>>>, ver, kvs, d)
       [] node.t = "none" -> [c |-> [c EXCEPT !.err = TRUE], n |-> NullN]
BInsertAll(E, c, nk, ver, old, g, todo, d, ch) ==
  IF todo = <<>> THEN [c |-> c, ch |-> ch]
  ELSE LET x == todo[1]
           q == IF x \in DOMAIN old THEN BInsert(E, c, ChildKey(nk, old[x].ver, x), ver, g[x], d + 1)
                ELSE BCreate(E, c, ChildKey(nk, ver, x), ver, g[x], d + 1)
       IN BInsertAll(E, q.c, nk, ver, old, g, Tail(todo), d, (x :> ChildOf(E, q.n, ver)) @@ ch)

\* the last write of every key, in key order
Dedup(ops) == LET ks == {ops[j][1] : j \in 1..Len(ops)}
                  last(k) == MaxSet({j \in 1..Len(ops) : ops[j][1] = k})
                  s == SortSet(ks)
              IN [j \in 1..Len(s) |-> ops[last(s[j])]]
RECURSIVE BatchSets(_, _, _)
BatchSets(E, c, sets) ==
  IF sets = <<>> THEN c
  ELSE LET q == BInsert(E, c, c.root, c.next, Dedup(sets[1]), 0)
       IN BatchSets(E, Freeze(E, [q.c EXCEPT !.root = <<c.next, <<>>>>]), Tail(sets))

-----------------------------------------------------------------------------
(* Reading with proof.                                                     *)

RECURSIVE GetpFrom(_, _, _, _, _)
GetpFrom(E, V, nk, k, sb) ==
  LET node == IF nk \in DOMAIN V THEN V[nk] ELSE NoneN
  IN CASE node.t = "int" ->
            LET n == E.nib[k][Len(nk[2]) + 1]
                s == ChildWithSibs(E, V, node.ch, nk, n, TRUE)
            IN IF s.ck = NoKey THEN [res |-> 0, out |-> 0, pf |-> [leaf |-> <<>>, sb |-> Rev(sb \o s.sb)]]
               ELSE GetpFrom(E, V, s.ck, k, sb \o s.sb)
       [] node.t = "leaf" -> [res |-> 0, out |-> IF node.k = k THEN node.v ELSE 0,
                              pf |-> [leaf |-> <<node.k, node.v>>, sb |-> Rev(sb)]]
       [] node.t = "null" -> [res |-> IF nk[2] = <<>> THEN 0 ELSE -1, out |-> 0, pf |-> NoPf]
       [] node.t = "none" -> [res |-> IF nk[2] = <<>> THEN -3 ELSE -1, out |-> 0, pf |-> NoPf]
Getp(E, V, ver, k) == GetpFrom(E, V, <<ver, <<>>>>, k, <<>>)

-----------------------------------------------------------------------------
(* The neighbours of an absent key.                                        *)

\* where the search ends: at a leaf, or below an internal node; with the internal nodes passed.
\* pp: the nibbles of the search key that were consumed
RECURSIVE SearchFrom(_, _, _, _, _, _)
SearchFrom(E, V, nk, k, d, ps) ==
  LET node == V[nk]
  IN IF node.t = "leaf" THEN [leaf |-> node.k, pp |-> SubSeq(E.nib[k], 1, d), ps |-> ps]
     ELSE LET n == E.nib[k][d + 1]
              ck == OnlyChildOf(E, node.ch, nk, n)
          IN IF ck = NoKey THEN [leaf |-> 0, pp |-> SubSeq(E.nib[k], 1, d + 1), ps |-> Append(ps, node.ch)]
             ELSE SearchFrom(E, V, ck, k, d + 1, Append(ps, node.ch))

RECURSIVE ExtremeKey(_, _, _, _)
ExtremeKey(E, V, nk, low) ==   \* the smallest (low) or largest key below a node
  LET node == V[nk]
  IN IF node.t = "leaf" THEN node.k
     ELSE LET x == IF low THEN MinSet(DOMAIN node.ch) ELSE MaxSet(DOMAIN node.ch)
          IN ExtremeKey(E, V, OnlyChildOf(E, node.ch, nk, x), low)

RECURSIVE Closest(_, _, _, _, _)
Closest(E, V, pp, ps, left) ==
  IF pp = <<>> \/ ps = <<>> THEN 0
  ELSE LET x == pp[Len(pp)]
           ch == ps[Len(ps)]
           up == SubSeq(pp, 1, Len(pp) - 1)
           S == {y \in DOMAIN ch : IF left THEN y < x ELSE y > x}
       IN IF S = {} THEN Closest(E, V, up, SubSeq(ps, 1, Len(ps) - 1), left)
          ELSE LET y == IF left THEN MaxSet(S) ELSE MinSet(S)
               IN ExtremeKey(E, V, <<ch[y].ver, Append(up, y)>>, ~left)

\* <<left neighbour, right neighbour>>, 0 for none
Bounds(E, V, ver, k) ==
  LET s == SearchFrom(E, V, <<ver, <<>>>>, k, 0, <<>>)
  IN IF s.leaf = 0 THEN <<Closest(E, V, s.pp, s.ps, TRUE), Closest(E, V, s.pp, s.ps, FALSE)>>
     ELSE IF s.leaf < k THEN <<s.leaf, Closest(E, V, s.pp, s.ps, FALSE)>>
     ELSE <<Closest(E, V, s.pp, s.ps, TRUE), s.leaf>>

-----------------------------------------------------------------------------
(* Iteration: a stack of <<node key, children, next child>>.               *)

NextIn(ch, n) == MinSet({x \in DOMAIN ch : x >= n})
IsRightmost(f) == f[3] = MaxSet(DOMAIN f[2])
RECURSIVE Cleanup(_)
Cleanup(st) ==
  IF st = <<>> THEN st
  ELSE LET f == st[Len(st)]
       IN IF IsRightmost(f) THEN Cleanup(SubSeq(st, 1, Len(st) - 1))
          ELSE [st EXCEPT ![Len(st)][3] = NextIn(f[2], f[3] + 1)]

RECURSIVE SeekFrom(_, _, _, _, _)
SeekFrom(E, V, nk, k, st) ==
  LET node == V[nk]
  IN CASE node.t = "null" -> [st |-> st, done |-> TRUE]
       [] node.t = "leaf" -> IF node.k < k THEN LET s2 == Cleanup(st) IN [st |-> s2, done |-> s2 = <<>>]
                             ELSE [st |-> st, done |-> FALSE]
       [] node.t = "int" ->
            LET n == E.nib[k][Len(nk[2]) + 1]
            IN IF n \in DOMAIN node.ch
               THEN SeekFrom(E, V, ChildKey(nk, node.ch[n].ver, n), k, Append(st, <<nk, node.ch, n>>))
               ELSE IF n < MaxSet(DOMAIN node.ch)
               THEN [st |-> Append(st, <<nk, node.ch, NextIn(node.ch, n)>>), done |-> FALSE]
               ELSE [st |-> Cleanup(st), done |-> FALSE]
Seek(E, V, ver, k) == SeekFrom(E, V, <<ver, <<>>>>, k, <<>>)

\* the child that holds the leaf number i (0-based) and what is left to skip in it
RECURSIVE SkipLeaves(_, _, _)
SkipLeaves(ch, todo, i) ==
  IF ch[todo[1]].cnt <= i THEN SkipLeaves(ch, Tail(todo), i - ch[todo[1]].cnt)
  ELSE <<todo[1], i>>
RECURSIVE SeekIdxFrom(_, _, _, _)
SeekIdxFrom(V, nk, i, st) ==
  LET node == V[nk]
  IN IF node.t = "leaf" THEN [st |-> st, done |-> FALSE]
     ELSE LET q == SkipLeaves(node.ch, SortSet(DOMAIN node.ch), i)
          IN SeekIdxFrom(V, ChildKey(nk, node.ch[q[1]].ver, q[1]), q[2], Append(st, <<nk, node.ch, q[1]>>))
SeekIdx(V, ver, i) == IF i >= LeafCount(V[<<ver, <<>>>>]) THEN [st |-> <<>>, done |-> TRUE]
                      ELSE SeekIdxFrom(V, <<ver, <<>>>>, i, <<>>)

\* one step: what is yielded (<<>> at the end) and the state after it
RECURSIVE NextFrom(_, _)
NextFrom(V, st) ==
  LET f == st[Len(st)]
      ck == ChildKey(f[1], f[2][f[3]].ver, f[3])
      node == V[ck]
  IN IF node.t = "leaf" THEN [out |-> <<node.k, node.v>>, it |-> [st |-> Cleanup(st), done |-> FALSE]]
     ELSE NextFrom(V, Append(st, <<ck, node.ch, MinSet(DOMAIN node.ch)>>))
IterNext(V, ver, it) ==
  IF it.done THEN [out |-> <<>>, it |-> it]
  ELSE IF it.st = <<>>
  THEN LET node == V[<<ver, <<>>>>]
       IN IF node.t = "leaf" THEN [out |-> <<node.k, node.v>>, it |-> [it EXCEPT !.done = TRUE]]
          ELSE [out |-> <<>>, it |-> it]
  ELSE NextFrom(V, it.st)
RECURSIVE IterAll(_, _, _)
IterAll(V, ver, it) ==
  LET q == IterNext(V, ver, it) IN IF q.out = <<>> THEN <<>> ELSE <<q.out>> \o IterAll(V, ver, q.it)

-----------------------------------------------------------------------------
(* The verifiers.  A proof is [leaf, sb], siblings bottom up.              *)

Up(E, k, h, sb) ==  \* fold the siblings over a digest at depth Len(sb) of the path of key k
  LET RECURSIVE F(_, _)
      F(x, j) == IF j > Len(sb) THEN x
                 ELSE LET s == SibHash(sb[j])
                      IN F(IF Bit(E, k, Len(sb) - j) = 1 THEN HNode(s, x) ELSE HNode(x, s), j + 1)
  IN F(h, 1)
LeafHash(leaf) == IF leaf = <<>> THEN Z ELSE HLeaf(leaf[1], leaf[2])

\* does the proof verify key k with value v (0: absence) against a root hash?
Verify(E, root, k, v, pf) ==
  /\ Len(pf.sb) <= E.B
  /\ IF v # 0 THEN pf.leaf = <<k, v>>
     ELSE pf.leaf # <<>> => (k # pf.leaf[1] /\ E.lcp[k][pf.leaf[1]] >= Len(pf.sb))
  /\ Up(E, k, LeafHash(pf.leaf), pf.sb) = root

RECURSIVE DropNull(_)
DropNull(sb) == IF sb # <<>> /\ sb[1] = <<0>> THEN DropNull(Tail(sb)) ELSE sb

Bad == <<"bad">>
\* the number of placeholders a split of leaf j by key k needs, as the verifier computes it
SplitFill(E, k, j, num) ==
  LET W == E.W
      cp == CommonNibbles(E, k, j)
      levels == ((W * (cp + 1) - num) \div W) * W
      last == E.lcp[k][j] - W * cp
      prev == (W - (num % W)) % W
  IN prev + levels + last - W
\* the new root hash that a proof shows for a change of key k to v, Bad if refused
NewRoot(E, root, k, v, pf) ==
  LET num == Len(pf.sb)
      own == pf.leaf # <<>> /\ pf.leaf[1] = k
  IN IF num > E.B THEN Bad
     ELSE IF v # 0
     THEN IF pf.leaf = <<>>
          THEN IF Verify(E, root, k, 0, pf) THEN Up(E, k, HLeaf(k, v), pf.sb) ELSE Bad
          ELSE IF Up(E, pf.leaf[1], LeafHash(pf.leaf), pf.sb) # root THEN Bad
          ELSE IF own THEN Up(E, k, HLeaf(k, v), pf.sb)
          ELSE IF ~Verify(E, root, k, 0, pf) THEN Bad
          ELSE LET f == SplitFill(E, k, pf.leaf[1], num)
               IN Up(E, k, HLeaf(k, v), <<<<1, pf.leaf[1], pf.leaf[2]>>>> \o [j \in 1..f |-> <<0>>] \o pf.sb)
     ELSE IF ~own THEN (IF Verify(E, root, k, 0, pf) THEN root ELSE Bad)
     ELSE IF Up(E, k, LeafHash(pf.leaf), pf.sb) # root THEN Bad
     ELSE LET s == DropNull(pf.sb)
          IN IF s = <<>> THEN Z
             ELSE IF s[1][1] = 2 THEN Up(E, k, Z, s)
             ELSE Up(E, k, SibHash(s[1]), DropNull(Tail(s)))
RECURSIVE RunUpd(_, _, _, _)
RunUpd(E, root, ops, pfs) ==
  IF root = Bad \/ ops = <<>> THEN root
  ELSE RunUpd(E, NewRoot(E, root, ops[1][1], ops[1][2], pfs[1]), Tail(ops), Tail(pfs))
VerifyUpd(E, old, new, ops, pfs) == Len(ops) = Len(pfs) /\ RunUpd(E, old, ops, pfs) = new

(* Range proofs: the siblings on the right of the path of a key, bottom    *)
(* up, and the digests on its left, bottom up.                             *)
RangePf(E, V, ver, k) ==
  LET pf == Getp(E, V, ver, k).pf
      n == Len(pf.sb)
      idx == SelectSeq([j \in 1..n |-> j], LAMBDA j : Bit(E, k, n - j) = 0)
  IN [j \in 1..Len(idx) |-> SibHash(pf.sb[idx[j]])]
LeftHashes(E, V, ver, k) ==
  LET pf == Getp(E, V, ver, k).pf
      n == Len(pf.sb)
      idx == SelectSeq([j \in 1..n |-> j], LAMBDA j : Bit(E, k, n - j) = 1)
  IN [j \in 1..Len(idx) |-> SibHash(pf.sb[idx[j]])]
RECURSIVE RangeFold(_, _, _, _, _, _)
RangeFold(E, k, h, d, left, right) ==
  IF d < 0 THEN h
  ELSE IF Bit(E, k, d) = 1
  THEN IF left = <<>> THEN Bad ELSE RangeFold(E, k, HNode(left[1], h), d - 1, Tail(left), right)
  ELSE IF right = <<>> THEN Bad ELSE RangeFold(E, k, HNode(h, right[1]), d - 1, left, Tail(right))
VerifyRange(E, root, k, v, left, right) ==
  LET n == Len(left) + Len(right)
  IN n <= E.B /\ RangeFold(E, k, HLeaf(k, v), n - 1, left, right) = root

-----------------------------------------------------------------------------
(* The declarative counterparts, with structural digests.                  *)

RECURSIVE SmtHash(_, _, _, _)
SmtHash(E, C, ks, d) ==
  IF ks = {} THEN Z
  ELSE IF Cardinality(ks) = 1 THEN LET k == CHOOSE k \in ks : TRUE IN HLeaf(k, C[k])
  ELSE LET zero == {k \in ks : Bit(E, k, d) = 0}
       IN HNode(SmtHash(E, C, zero, d + 1), SmtHash(E, C, ks \ zero, d + 1))
RootOf(E, C) == SmtHash(E, C, Present(E, C), 0)

NibPath(E, p) == SubSeq(E.nib[p[1]], 1, p[2])
NodeKeyOf(E, T, p) == <<T[p], NibPath(E, p)>>
\* the node that belongs at path p of the tree s
NodeAt(E, s, p) ==
  LET ks == KeysAt(E, s.C, p)
  IN IF ks = {} THEN NullN
     ELSE IF Cardinality(ks) = 1 THEN LET k == CHOOSE k \in ks : TRUE IN LeafN(k, s.C[k])
     ELSE LET cps == ChildPaths(E, s.C, p)
              of(x) == CHOOSE q \in cps : NibbleAt(E, q) = x
          IN IntN([x \in {NibbleAt(E, q) : q \in cps} |->
                     LET q == of(x) kq == KeysAt(E, s.C, q)
                     IN [h |-> SmtHash(E, s.C, kq, E.W * q[2]), ver |-> s.T[q],
                         leaf |-> Cardinality(kq) = 1, cnt |-> Cardinality(kq)]])
TreeNodes(E, s) == [nk \in {NodeKeyOf(E, s.T, p) : p \in DOMAIN s.T} |->
                      NodeAt(E, s, CHOOSE p \in DOMAIN s.T : NodeKeyOf(E, s.T, p) = nk)]
=============================================================================

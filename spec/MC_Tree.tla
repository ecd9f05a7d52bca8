------------------------------- MODULE MC_Tree ------------------------------
(***************************************************************************)
(* Design model: histories of commits, several versions at once, appends   *)
(* and prunings over small key universes, computed by the algorithms of    *)
(* JmtAlg and compared with what JmtCore declares, after every step:       *)
(* the outcome of the step, and everything readable in the state reached.  *)
(* `bad' collects the names of the comparisons that failed.                *)
(***************************************************************************)
EXTENDS JmtAlg

CONSTANTS
  Univ,      \* which key universes: "few", "three", "four" (every 3 or 4 of the 16 keys of 4 bits), "deep"
  MaxSteps,  \* number of steps
  MaxVer,    \* number of versions
  MaxOps,    \* changes per version
  MaxSets,   \* versions per commit
  Vals,      \* value numbers
  Appends,   \* BOOLEAN: with appends in place
  Prunes,    \* BOOLEAN: with prunings
  Pre,       \* BOOLEAN: also histories that start upon a restored pre-genesis version
  KF1        \* BOOLEAN: allow an append that brings back a stale node (known finding)

Few == <<
  [W |-> 2, B |-> 4, nib |-> <<<<0, 0>>, <<0, 1>>, <<0, 2>>, <<3, 0>>>>],
  [W |-> 2, B |-> 4, nib |-> <<<<0, 3>>, <<1, 0>>, <<2, 0>>, <<2, 3>>>>],
  [W |-> 1, B |-> 3, nib |-> <<<<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 0>>, <<1, 1, 1>>>>] >>
Deep == <<
  [W |-> 2, B |-> 6, nib |-> <<<<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 3>>, <<0, 2, 0>>>>],
  [W |-> 2, B |-> 6, nib |-> <<<<1, 0, 0>>, <<2, 2, 2>>, <<2, 2, 3>>, <<3, 0, 0>>>>],
  [W |-> 1, B |-> 4, nib |-> <<<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 1, 1>>, <<1, 0, 0, 0>>>>],
  [W |-> 3, B |-> 3, nib |-> <<<<0>>, <<1>>, <<3>>, <<4>>>>],
  [W |-> 3, B |-> 6, nib |-> <<<<0, 0>>, <<0, 5>>, <<4, 1>>, <<5, 1>>>>] >>
Key4(x) == <<x \div 4, x % 4>>
RECURSIVE Seq3(_)
Seq3(S) == IF S = {} THEN <<>>
           ELSE LET x == CHOOSE x \in S : TRUE
                    s == SortSet(x)
                IN <<[W |-> 2, B |-> 4, nib |-> [j \in 1..3 |-> Key4(s[j])]]>> \o Seq3(S \ {x})
Three == Seq3({{a, b, c} : a \in 0..15, b \in 0..15, c \in 0..15} \cap {S \in SUBSET (0..15) : Cardinality(S) = 3})
RECURSIVE Seq4(_)
Seq4(S) == IF S = {} THEN <<>>
           ELSE LET x == CHOOSE x \in S : TRUE
                    s == SortSet(x)
                IN <<[W |-> 2, B |-> 4, nib |-> [j \in 1..4 |-> Key4(s[j])]]>> \o Seq4(S \ {x})
Four == Seq4({S \in SUBSET (0..15) : Cardinality(S) = 4})
Universes == TLCEval(CASE Univ = "four" -> Four [] Univ = "few" -> Few [] Univ = "deep" -> Deep [] Univ = "three" -> Three)

VARIABLES u, env, disk, stale, H, lat, low, bad
vars == <<u, env, disk, stale, H, lat, low, bad>>
E == env
StateView == <<u, disk, stale, H, lat, low, bad>>
PREV == -1
None0 == -2

RECURSIVE OpSeqs(_, _)
OpSeqs(S, n) == IF n = 0 THEN {<<>>} ELSE LET T == OpSeqs(S, n - 1) IN T \cup {Append(t, x) : t \in T, x \in S}
Ops == {<<k, v>> : k \in 1..Len(Universes[u].nib), v \in Vals \cup {0}}
OpsLists == OpSeqs(Ops, MaxOps)
RECURSIVE SetLists(_, _)
SetLists(S, n) == IF n = 1 THEN {<<x>> : x \in S} ELSE LET T == SetLists(S, n - 1) IN T \cup {Append(t, x) : t \in T, x \in S}

Lab(name, ok) == IF ok THEN {} ELSE {name}

Tree0 == [C |-> Empty(E), T |-> NoTree]
At(v) == IF v \in DOMAIN H THEN H[v] ELSE Tree0
Nodes(s) == TreeNodes(E, s)

RECURSIVE Unite(_)
Unite(fs) == IF fs = <<>> THEN NoNodes ELSE fs[1] @@ Unite(Tail(fs))
NKs(T) == {NodeKeyOf(E, T, p) : p \in DOMAIN T}

\* the proofs of an update show, one after the other, what the changed keys were
RECURSIVE ProofsShow(_, _, _)
ProofsShow(C, ops, pfs) ==
  \/ ops = <<>>
  \/ /\ Verify(E, RootOf(E, C), ops[1][1], C[ops[1][1]], pfs[1])
     /\ ProofsShow([C EXCEPT ![ops[1][1]] = ops[1][2]], Tail(ops), Tail(pfs))

StatsFor(old, new) ==
  LET a == NodesOf(new.T) \ NodesOf(old.T)
      d == NodesOf(old.T) \ NodesOf(new.T)
      lv(s, X) == {x \in X : Cardinality(KeysAt(E, s.C, <<x[2], x[3]>>)) = 1}
  IN <<Cardinality(a), Cardinality(lv(new, a)), Cardinality(d), Cardinality(lv(old, d))>>

\* what a computation has brought about (a cache c), compared with the trees cs upon s0
Judge(c, s0, cs, ver, app) ==
  LET n == Len(cs)
      prev(j) == IF j = 1 THEN s0 ELSE cs[j - 1]
      new(j) == LET N == Nodes(cs[j]) IN [x \in {x \in DOMAIN N : x[1] = ver + j - 1} |-> N[x]]
  IN Lab("assertion", ~c.err)
     \cup Lab("roots", c.roots = [j \in 1..n |-> RootOf(E, cs[j].C)])
     \cup Lab("nodes", IF app THEN LET N == Nodes(cs[1])
                                   IN /\ \A x \in DOMAIN c.fnodes : x \in DOMAIN N /\ N[x] = c.fnodes[x]
                                      /\ \A x \in DOMAIN N : x \in DOMAIN c.fnodes \/ (x \in DOMAIN disk /\ disk[x] = N[x])
                       ELSE c.fnodes = Unite([j \in 1..n |-> new(j)]))
     \cup Lab("stale", c.fstale = UNION {{<<ver + j - 1, x>> : x \in NKs(prev(j).T) \ NKs(cs[j].T)} : j \in 1..n})
     \cup Lab("stats", app \/ c.stats = [j \in 1..n |-> StatsFor(prev(j), cs[j])])
JudgePfs(pfs, s0, cs, sets) ==
  LET prev(j) == IF j = 1 THEN s0 ELSE cs[j - 1]
  IN Lab("update proofs", \A j \in 1..Len(cs) :
           /\ ProofsShow(prev(j).C, sets[j], pfs[j])
           /\ VerifyUpd(E, RootOf(E, prev(j).C), RootOf(E, cs[j].C), sets[j], pfs[j]))

Pairs(C, from) == LET ks == SelectSeq(KeySeq(E, C), LAMBDA k : k >= from) IN [j \in 1..Len(ks) |-> <<ks[j], C[ks[j]]>>]
RECURSIVE RightOf0(_, _, _)
RightOf0(h, k, d) == IF h[1] # "n" THEN <<>>
                     ELSE IF Bit(E, k, d) = 0 THEN Append(RightOf0(h[2], k, d + 1), h[3]) ELSE RightOf0(h[3], k, d + 1)

\* everything that can be read of version v from storage dk
Readings(dk, v, s) ==
  LET C == s.C
      root == RootOf(E, C)
      ps == Pairs(C, 1)
  IN UNION {
       LET g == Getp(E, dk, v, k)
       IN Lab("read", g.res = 0 /\ g.out = C[k])
          \cup Lab("proof", /\ Len(g.pf.sb) = ProofDepth(E, C, k)
                            /\ g.pf.leaf = (LET l == ProofLeaf(E, C, k) IN IF l = 0 THEN <<>> ELSE <<l, C[l]>>)
                            /\ \A w \in Vals \cup {0} : Verify(E, root, k, w, g.pf) <=> w = C[k])
          \cup Lab("neighbours", C[k] = 0 /\ ps # <<>> => Bounds(E, dk, v, k) = <<LeftOf(E, C, k), RightOf(E, C, k)>>)
          \cup Lab("range", C[k] # 0 =>
                   LET r == RangePf(E, dk, v, k)
                   IN r = RightOf0(root, k, 0) /\ VerifyRange(E, root, k, C[k], LeftHashes(E, dk, v, k), r))
          \cup Lab("iterate", IterAll(dk, v, Seek(E, dk, v, k)) = Pairs(C, k))
       : k \in Keys(E)}
     \cup Lab("count", LeafCount(dk[<<v, <<>>>>]) = Len(ps))
     \cup Lab("by index", \A i \in 0..(Len(ps) + 1) : IterAll(dk, v, SeekIdx(dk, v, i)) = SubSeq(ps, i + 1, Len(ps)))

\* the state reached: storage holds the trees of the versions that are still readable, and besides
\* only what is recorded as stale; and the latest version reads as it should (what the older ones
\* use is as it was when they were the latest)
State ==
  LET vs == {v \in DOMAIN H : v >= low}
  IN IF lat = None0 THEN {}
     ELSE Readings(disk, lat, H[lat])
          \cup Lab("storage", \A v \in vs : LET N == Nodes(H[v]) IN \A x \in DOMAIN N : x \in DOMAIN disk /\ disk[x] = N[x])
          \cup Lab("garbage", DOMAIN disk = UNION {NKs(H[v].T) : v \in vs} \cup {r[2] : r \in stale})
          \cup Lab("recorded in use", {r[2] : r \in stale} \cap NKs(H[lat].T) = {})
          \* reading an older version with proof reports a missing root
          \cup Lab("old root", \A w \in DOMAIN H : w < low => \A k \in Keys(E) : Getp(E, disk, w, k).res = -3)

Init ==
  /\ u \in 1..Len(Universes)
  /\ env = TLCEval(MakeEnv(Universes[u].W, Universes[u].B, Universes[u].nib))
  /\ stale = {} /\ bad = {} /\ low = -5
  /\ \/ disk = NoNodes /\ H = [x \in {} |-> 0] /\ lat = None0
     \/ /\ Pre /\ lat = PREV
        /\ \E C \in [Keys(E) -> Vals \cup {0}] :
             LET s == [C |-> C, T |-> [p \in Shape(E, C) |-> PREV]]
             IN H = (PREV :> s) /\ disk = TreeNodes(E, s)

Commit ==
  /\ bad = {}
  /\ \E sets \in SetLists(OpsLists, MaxSets) :
       LET ver == IF lat = None0 THEN 0 ELSE lat + 1
           s0 == At(ver - 1)
           cs == Chain(E, s0, sets, ver)
           n == Len(sets)
           q == PutSets(E, NewCache(disk, ver, PREV), sets, <<>>)
           H2 == [v \in ver..(ver + n - 1) |-> cs[v - ver + 1]] @@ H
           bulk == \A j \in 1..n : sets[j] # <<>> /\ \A i \in 1..Len(sets[j]) : sets[j][i][2] # 0
           b == IF bulk THEN BatchSets(E, NewCache(disk, ver, PREV), sets) ELSE q.c
       IN /\ ver + n <= MaxVer
          /\ H' = H2
          /\ lat' = ver + n - 1
          /\ disk' = q.c.fnodes @@ disk
          /\ stale' = stale \cup q.c.fstale
          /\ bad' = Judge(q.c, s0, cs, ver, FALSE)
                    \cup JudgePfs(q.pfs, s0, cs, sets)
                    \cup Lab("bulk interface", <<b.roots, b.fnodes, b.fstale, b.stats, b.err>> = <<q.c.roots, q.c.fnodes, q.c.fstale, q.c.stats, q.c.err>>)
                    \cup Lab("applied at once", ApplySet(E, s0, sets[1], ver) = ApplySeq(E, s0, sets[1], ver))
                    \cup Lab("overwritten", DOMAIN q.c.fnodes \cap DOMAIN disk = {})
  /\ UNCHANGED <<u, env, low>>

AppendTo ==
  /\ Appends /\ bad = {} /\ lat >= 0 /\ Present(E, H[lat].C) # {}
  /\ \E ops \in OpsLists :
       LET s0 == H[lat]
           cs == <<Seal(ApplySet(E, s0, ops, lat), lat)>>
           q == PutOps(E, AppendCache(disk, lat), lat, ops, <<>>)
           c == Freeze(E, q.c)
           H2 == (lat :> cs[1]) @@ H
       IN /\ KF1 \/ {r[2] : r \in stale \cup c.fstale} \cap NKs(cs[1].T) = {}
          /\ H' = H2
          /\ disk' = c.fnodes @@ disk
          /\ stale' = stale \cup c.fstale
          /\ bad' = Judge(c, s0, cs, lat, TRUE)
                    \cup JudgePfs(<<q.pfs>>, s0, cs, <<ops>>)
                    \cup Lab("applied at once", ApplySet(E, s0, ops, lat) = ApplySeq(E, s0, ops, lat))
  /\ UNCHANGED <<u, env, lat, low>>

Prune ==
  /\ Prunes /\ bad = {} /\ lat # None0
  /\ \E v \in DOMAIN H :
       LET gone == {r \in stale : r[1] <= v}
           del == {r[2] : r \in gone}
           lw == IF v > low THEN v ELSE low
       IN /\ v >= low /\ gone # {}
          /\ low' = lw
          /\ stale' = stale \ gone
          /\ disk' = [x \in DOMAIN disk \ del |-> disk[x]]
          /\ bad' = Lab("pruned twice", Cardinality(del) = Cardinality(gone) /\ del \subseteq DOMAIN disk)
                    \cup Lab("left behind", v = lat => DOMAIN disk' = NKs(H[lat].T))
  /\ UNCHANGED <<u, env, H, lat>>

Next == TLCGet("level") <= MaxSteps /\ (Commit \/ AppendTo \/ Prune)
Spec == Init /\ [][Next]_vars
Holds == bad = {}
StateHolds == State = {}
Show == [u |-> u, H |-> H, lat |-> lat, low |-> low, bad |-> bad, state |-> State]
=============================================================================

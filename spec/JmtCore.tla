------------------------------ MODULE JmtCore ------------------------------
(***************************************************************************)
(* The Jellyfish Merkle tree, declaratively.                               *)
(*                                                                         *)
(* Keys are numbered 1..n in ascending order.  An environment record E     *)
(* describes the key universe and is passed to every operator, so that     *)
(* the same definitions serve the small exhaustive models (short keys,     *)
(* 1- or 2-bit nibbles) and the traces of the real code (256-bit keys,     *)
(* 4-bit nibbles):                                                         *)
(*   E.n    number of keys in the universe                                 *)
(*   E.W    bits per nibble                                                *)
(*   E.B    bits per key (a multiple of W)                                 *)
(*   E.nib  E.nib[k][j]: j-th nibble (1-based) of key k                    *)
(*   E.lcp  E.lcp[i][j]: number of leading bits keys i and j share         *)
(*   E.lo   E.lo[k][d+1]: smallest key that shares the first d nibbles     *)
(*          with k: the pair <<lo, d>> names a nibble path                 *)
(*   E.hi   E.hi[k][d+1]: largest such key                                 *)
(*                                                                         *)
(* A content is a sequence of length n: content[k] is the (positive)       *)
(* number of the value of key k, 0 if k is absent.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt

MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b
\* (TLC enumerates sets in ascending order)
MaxSet(S) == -(CHOOSE x \in {-y : y \in S} : \A y \in S : x <= -y)
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y

-----------------------------------------------------------------------------
(* Building an environment from the nibbles of the (sorted) keys.          *)

BitOf(W, nibs, d) ==  \* bit d (0-based, most significant first)
  (nibs[(d \div W) + 1] \div (2 ^ (W - 1 - (d % W)))) % 2

LcpOf(W, B, x, y) ==
  LET diff == {j \in 1..(B \div W) : x[j] # y[j]}
      j == MinSet(diff)
  IN IF diff = {} THEN B
     ELSE MinSet({d \in (W * (j - 1))..(W * j - 1) : BitOf(W, x, d) # BitOf(W, y, d)})

\* with adj the longest common prefixes of neighbouring keys: those of any two, and the smallest key
\* below each path
LcpRows(B, n, adj) ==
  LET row(i) == FoldLeft(LAMBDA r, j : Append(r, MinOf(r[j - i], adj[j - 1])), <<B>>, [j \in 1..(n - i) |-> i + j])
      half == TLCEval([i \in 1..n |-> row(i)])   \* row i from column i on
  IN TLCEval([i \in 1..n |-> [j \in 1..n |-> IF j >= i THEN half[i][j - i + 1] ELSE half[j][i - j + 1]]])
LoRows(W, B, n, adj) ==
  LET D == (B \div W) + 1
      row(acc, k) == Append(acc, [d \in 1..D |-> IF adj[k - 1] >= W * (d - 1) THEN acc[k - 1][d] ELSE k])
  IN FoldLeft(row, <<[d \in 1..D |-> 1]>>, [k \in 1..(n - 1) |-> k + 1])

HiRows(W, B, n, adj) ==
  LET D == (B \div W) + 1
      row(acc, k) == <<[d \in 1..D |-> IF adj[k] >= W * (d - 1) THEN acc[1][d] ELSE k]>> \o acc
  IN FoldLeft(row, <<[d \in 1..D |-> n]>>, [k \in 1..(n - 1) |-> n - k])

MakeEnv(W, B, nib) ==
  LET n   == Len(nib)
      adj == TLCEval([i \in 1..(n - 1) |-> LcpOf(W, B, nib[i], nib[i + 1])])
  IN [n |-> n, W |-> W, B |-> B, nib |-> nib, lcp |-> LcpRows(B, n, adj), lo |-> LoRows(W, B, n, adj),
      hi |-> HiRows(W, B, n, adj)]

Keys(E) == 1..E.n
Bit(E, k, d) == BitOf(E.W, E.nib[k], d)
Root == <<1, 0>>
PathOf(E, k, d) == <<E.lo[k][d + 1], d>>      \* first d nibbles of key k
Covers(E, p, k) == E.lo[k][p[2] + 1] = p[1] \* path p is a prefix of key k
Under(E, p) == p[1]..E.hi[p[1]][p[2] + 1]

-----------------------------------------------------------------------------
(* Contents.                                                               *)

Empty(E) == [k \in Keys(E) |-> 0]
Present(E, C) == {k \in Keys(E) : C[k] # 0}
KeySeq(E, C) == SelectSeq([k \in Keys(E) |-> k], LAMBDA k : C[k] # 0)

ApplyOps(C, ops) == FoldLeft(LAMBDA D, o : [D EXCEPT ![o[1]] = o[2]], C, ops)

Less(E, C, k) == {j \in Present(E, C) : j < k}
Greater(E, C, k) == {j \in Present(E, C) : j > k}
LeftOf(E, C, k) == LET S == Less(E, C, k) IN IF S = {} THEN 0 ELSE MaxSet(S)
RightOf(E, C, k) == LET S == Greater(E, C, k) IN IF S = {} THEN 0 ELSE MinSet(S)

\* longest common prefix of k with another present key, -1 if there is none
NearLcp(E, C, k) ==
  LET l == LeftOf(E, C, k) r == RightOf(E, C, k)
  IN MaxOf(IF l = 0 THEN -1 ELSE E.lcp[k][l], IF r = 0 THEN -1 ELSE E.lcp[k][r])

-----------------------------------------------------------------------------
(* The shape of the tree: which nibble paths carry a node.                 *)

\* depth in nibbles of the leaf of a present key: one nibble below the longest common prefix
LeafDepth(E, C, k) == LET m == NearLcp(E, C, k) IN IF m < 0 THEN 0 ELSE (m \div E.W) + 1
LeafPath(E, C, k) == PathOf(E, k, LeafDepth(E, C, k))

Leaves(E, C) ==
  LET s == KeySeq(E, C)
      n == Len(s)
      near(i) == MaxOf(IF i = 1 THEN -1 ELSE E.lcp[s[i]][s[i - 1]], IF i = n THEN -1 ELSE E.lcp[s[i]][s[i + 1]])
  IN {PathOf(E, s[i], IF n = 1 THEN 0 ELSE (near(i) \div E.W) + 1) : i \in 1..n}
\* there is an internal node at every path that at least two present keys share
Internals(E, C) ==
  LET s == KeySeq(E, C)
  IN UNION {{PathOf(E, s[i], d) : d \in 0..(E.lcp[s[i]][s[i + 1]] \div E.W)} : i \in 1..(Len(s) - 1)}
Shape(E, C) == IF Present(E, C) = {} THEN {Root} ELSE Leaves(E, C) \cup Internals(E, C)

\* the kind, count and content of the node at path p of the tree of C
KeysAt(E, C, p) == {k \in Under(E, p) : C[k] # 0}
Kind(E, C, p) == LET c == Cardinality(KeysAt(E, C, p))
                 IN IF c = 0 THEN "null" ELSE IF c = 1 THEN "leaf" ELSE "int"
ChildPaths(E, C, p) == {PathOf(E, k, p[2] + 1) : k \in KeysAt(E, C, p)}
NibbleAt(E, p) == E.nib[p[1]][p[2]]   \* last nibble of a non-empty path

-----------------------------------------------------------------------------
(* Versioned trees.  A tree is a function from the paths of its nodes to   *)
(* the versions under which these nodes are stored.                        *)

NoTree == [p \in {} |-> 0]
NodesOf(T) == {<<T[p], p[1], p[2]>> : p \in DOMAIN T}

\* One change of key k to value v (0: delete) at version ver.  A change is effective if it writes
\* or if it deletes a present key.  It renews every node on the path of k and every node at a path
\* where there was none (a leaf that a split pushes down); everything else is shared.
ApplyOp(E, s, k, v, ver) ==
  IF v = 0 /\ s.C[k] = 0 THEN s
  ELSE LET C2 == [s.C EXCEPT ![k] = v]
           S2 == Shape(E, C2)
       IN [C |-> C2,
           T |-> [p \in S2 |-> IF Covers(E, p, k) \/ p \notin DOMAIN s.T THEN ver ELSE s.T[p]]]

ApplySeq(E, s, ops, ver) == FoldLeft(LAMBDA t, o : ApplyOp(E, t, o[1], o[2], ver), s, ops)

\* The same at once (the models check that it is): a node keeps its version if nothing below it was
\* changed and it never was away, as a leaf is while no other key is left below its parent.
ApplySet(E, s, ops, ver) ==
  LET x == FoldLeft(LAMBDA y, o : IF o[2] = 0 /\ y.C[o[1]] = 0 THEN y
                                  ELSE [C |-> [y.C EXCEPT ![o[1]] = o[2]], ks |-> y.ks \cup {o[1]}],
                    [C |-> s.C, ks |-> {}], ops)
      Cs == FoldLeft(LAMBDA y, o : Append(y, [y[Len(y)] EXCEPT ![o[1]] = o[2]]), <<s.C>>, ops)
      away(p) == LET js == KeysAt(E, x.C, p)
                     j == MinSet(js)
                     q == PathOf(E, j, p[2] - 1)
                 IN /\ Cardinality(js) = 1
                    /\ \E k \in x.ks : Covers(E, q, k)
                    /\ \E t \in 1..Len(Cs) : KeysAt(E, Cs[t], q) = js
      new(p) == \/ p \notin DOMAIN s.T
                \/ \E k \in x.ks : Covers(E, p, k)
                \/ away(p)
  IN IF x.ks = {} THEN s
     ELSE [C |-> x.C, T |-> TLCEval([p \in Shape(E, x.C) |-> IF new(p) THEN ver ELSE s.T[p]])]

\* Every version has a root of its own, also if nothing changed.
Seal(s, ver) == [s EXCEPT !.T = (Root :> ver) @@ s.T]

\* the trees of consecutive versions, one set of changes each
RECURSIVE Chain(_, _, _, _)
Chain(E, s, sets, ver) ==
  IF sets = <<>> THEN <<>>
  ELSE LET s2 == Seal(ApplySet(E, s, sets[1], ver), ver)
       IN <<s2>> \o Chain(E, s2, Tail(sets), ver + 1)

-----------------------------------------------------------------------------
(* Key proofs.  The proof of key k has one sibling per level down to the   *)
(* depth at which at most one present key shares the path of k.            *)

ProofDepth(E, C, k) ==
  IF C[k] # 0 THEN NearLcp(E, C, k) + 1
  ELSE LET L == {E.lcp[k][j] : j \in Present(E, C)}
           \* second longest common prefix, counting multiplicity
           top == IF L = {} THEN -1 ELSE MaxSet(L)
           tops == {j \in Present(E, C) : E.lcp[k][j] = top}
           rest == {E.lcp[k][j] : j \in Present(E, C) \ tops}
       IN IF Cardinality(Present(E, C)) <= 1 THEN 0
          ELSE IF Cardinality(tops) >= 2 THEN top + 1
          ELSE MaxSet(rest) + 1
\* the only present key that shares the first D bits with k, 0 if none does
ProofLeaf(E, C, k) ==
  LET S == {j \in Present(E, C) : E.lcp[k][j] >= ProofDepth(E, C, k)}
  IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE

=============================================================================

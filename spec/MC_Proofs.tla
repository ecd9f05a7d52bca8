------------------------------ MODULE MC_Proofs -----------------------------
(***************************************************************************)
(* Design model of the verifiers: whatever proof is presented, one that is *)
(* accepted shows something true.  For every content of small universes,   *)
(* every key proof, every update proof of one change, every range proof    *)
(* and every pair of existence proofs (for an absence in the ICS23 format) *)
(* is presented to the verifiers of JmtAlg.  The siblings range over all   *)
(* digests that occur in the tree, and some that do not.                   *)
(***************************************************************************)
EXTENDS JmtAlg

CONSTANTS Univ, Vals

Small == << [W |-> 1, B |-> 3, nib |-> <<<<0, 0, 0>>, <<0, 1, 0>>, <<0, 1, 1>>>>],
            [W |-> 2, B |-> 2, nib |-> <<<<0>>, <<1>>, <<2>>>>] >>
Middle == << [W |-> 1, B |-> 3, nib |-> <<<<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 0>>, <<1, 1, 1>>>>],
             [W |-> 2, B |-> 2, nib |-> <<<<0>>, <<1>>, <<2>>, <<3>>>>],
             [W |-> 3, B |-> 3, nib |-> <<<<0>>, <<1>>, <<3>>, <<4>>>>] >>
Big == << [W |-> 2, B |-> 4, nib |-> <<<<0, 0>>, <<0, 1>>, <<2, 0>>, <<3, 3>>>>],
          [W |-> 1, B |-> 4, nib |-> <<<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 1, 1, 0>>, <<1, 1, 1, 1>>>>] >>
\* for the ICS23 format only, where all accepted existence proofs can be derived from the tree
Wide == << [W |-> 2, B |-> 4, nib |-> <<<<0, 0>>, <<0, 1>>, <<0, 2>>, <<1, 0>>, <<2, 3>>, <<3, 0>>, <<3, 3>>>>],
           [W |-> 1, B |-> 4, nib |-> <<<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 1, 1>>, <<0, 1, 1, 0>>, <<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<1, 1, 1, 1>>>>],
           [W |-> 3, B |-> 3, nib |-> <<<<0>>, <<1>>, <<2>>, <<3>>, <<4>>, <<5>>, <<6>>, <<7>>>>],
           [W |-> 3, B |-> 6, nib |-> <<<<0, 0>>, <<0, 5>>, <<0, 6>>, <<2, 7>>, <<4, 1>>, <<5, 1>>, <<5, 2>>>>] >>
Universes == CASE Univ = "small" -> Small [] Univ = "middle" -> Middle [] Univ = "big" -> Big [] Univ = "wide" -> Wide

\* (env: the universe, worked out once)
VARIABLES u, env, C, k, go
vars == <<u, env, C, k, go>>
StateView == <<u, C, k, go>>
E == env
Root0 == RootOf(E, C)

RECURSIVE Terms(_)
Terms(t) == IF t[1] = "n" THEN {t} \cup Terms(t[2]) \cup Terms(t[3]) ELSE {t}
SibOf(t) == CASE t[1] = "z" -> <<0>> [] t[1] = "l" -> <<1, t[2], t[3]>> [] t[1] = "n" -> <<2, t[2], t[3]>>
Sibs == {SibOf(t) : t \in Terms(Root0)} \cup {<<0>>, <<1, 1, 9>>, <<2, <<"x">>, Z>>}
RECURSIVE SeqsTo(_, _)
SeqsTo(S, n) == IF n = 0 THEN {<<>>}
                ELSE LET T == SeqsTo(S, n - 1) IN T \cup {Append(t, x) : t \in {y \in T : Len(y) = n - 1}, x \in S}
Vals9 == Vals \cup {9}
Leafs == {<<>>} \cup {<<j, v>> : j \in Keys(E), v \in Vals9}
\* sequences longer than a key are refused without looking at them
KeyProofs ==
  LET R == Root0
      Q == SeqsTo(Sibs, E.B)
  IN \A l \in Leafs : \A s \in Q : \A v \in Vals9 \cup {0} :
       Verify(E, R, k, v, [leaf |-> l, sb |-> s]) => v = C[k]
UpdProofs ==
  LET R == Root0
      Q == SeqsTo(Sibs, E.B)
      new == [v \in Vals9 \cup {0} |-> RootOf(E, [C EXCEPT ![k] = v])]
  IN \A l \in Leafs : \A s \in Q : \A v \in Vals9 \cup {0} :
       LET r == NewRoot(E, R, k, v, [leaf |-> l, sb |-> s]) IN r # Bad => r = new[v]
RECURSIVE RightOf0(_, _, _)
RightOf0(h, j, d) == IF h[1] # "n" THEN <<>>
                     ELSE IF Bit(E, j, d) = 0 THEN Append(RightOf0(h[2], j, d + 1), h[3]) ELSE RightOf0(h[3], j, d + 1)
RangeProofs ==
  LET R == Root0
      S == {SibHash(x) : x \in Sibs}
      Q == [n \in 0..E.B |-> SeqsTo(S, n)]
      true == RightOf0(R, k, 0)
  IN \A left \in Q[E.B] : \A right \in Q[E.B - Len(left)] : \A v \in Vals9 :
       VerifyRange(E, R, k, v, left, right) => v = C[k] /\ right = true

-----------------------------------------------------------------------------
(* The ICS23 format.  An existence proof: a leaf and, bottom up, on which  *)
(* side of its sibling the path is, with the digest of the sibling.        *)

IcsRoot(p) == LET RECURSIVE F(_, _)
                  F(x, j) == IF j > Len(p.path) THEN x
                             ELSE F(IF p.path[j][1] = 0 THEN HNode(x, p.path[j][2]) ELSE HNode(p.path[j][2], x), j + 1)
              IN F(HLeaf(p.k, p.v), 1)
LeftMost(path) == \A j \in 1..Len(path) : path[j][1] = 0 \/ path[j][2] = Z
RightMost(path) == \A j \in 1..Len(path) : path[j][1] = 1 \/ path[j][2] = Z
RECURSIVE LeftNeighbour(_, _)
LeftNeighbour(a, b) ==
  /\ a # <<>> /\ b # <<>>
  /\ LET x == a[Len(a)] y == b[Len(b)]
         ra == SubSeq(a, 1, Len(a) - 1) rb == SubSeq(b, 1, Len(b) - 1)
     IN IF x = y THEN LeftNeighbour(ra, rb)
        ELSE x[1] = 0 /\ y[1] = 1 /\ RightMost(ra) /\ LeftMost(rb)
\* l, r: sets with at most one existence proof
VerifyNonExist(root, j, l, r) ==
  /\ l # {} \/ r # {}
  /\ \A p \in l : IcsRoot(p) = root /\ p.k < j
  /\ \A p \in r : IcsRoot(p) = root /\ j < p.k
  /\ IF l = {} THEN \A p \in r : LeftMost(p.path)
     ELSE IF r = {} THEN \A p \in l : RightMost(p.path)
     ELSE \A p \in l, q \in r : LeftNeighbour(p.path, q.path)

\* all existence proofs that lead to the digest h
RECURSIVE AllExist(_, _)
AllExist(h, path) ==
  CASE h[1] = "l" -> {[k |-> h[2], v |-> h[3], path |-> path]}
    [] h[1] = "z" -> {}
    [] h[1] = "n" -> AllExist(h[2], <<<<0, h[3]>>>> \o path) \cup AllExist(h[3], <<<<1, h[2]>>>> \o path)
\* the proof that the implementation makes of a key proof
IcsOf(V, j) == LET pf == Getp(E, V, 1, j).pf n == Len(pf.sb)
               IN [k |-> j, v |-> C[j], path |-> [i \in 1..n |-> <<Bit(E, j, n - i), SibHash(pf.sb[i])>>]]
Ics ==
  LET V == TreeNodes(E, [C |-> C, T |-> [p \in Shape(E, C) |-> 1]])
      R == Root0
      all == AllExist(R, <<>>)
      one(j) == IF j = 0 THEN {} ELSE {IcsOf(V, j)}
  IN /\ C[k] # 0 => IcsRoot(IcsOf(V, k)) = R
     /\ \A p \in all : C[p.k] = p.v
     /\ C[k] = 0 /\ Present(E, C) # {} =>
          VerifyNonExist(R, k, one(LeftOf(E, C, k)), one(RightOf(E, C, k)))
     /\ \A l \in {{}} \cup {{p} : p \in all}, r \in {{}} \cup {{p} : p \in all} :
          VerifyNonExist(R, k, l, r) =>
            /\ C[k] = 0
            /\ l = one(LeftOf(E, C, k)) /\ r = one(RightOf(E, C, k))

-----------------------------------------------------------------------------
\* (the last step is there so that all workers of TLC have their share)
Init == u \in 1..Len(Universes) /\ env = TLCEval(MakeEnv(Universes[u].W, Universes[u].B, Universes[u].nib)) /\ C = <<>> /\ k = 0 /\ go = FALSE
Next == \/ C = <<>> /\ C' \in [Keys(E) -> Vals \cup {0}] /\ k' \in Keys(E) /\ UNCHANGED <<u, env, go>>
        \/ C # <<>> /\ ~go /\ go' = TRUE /\ UNCHANGED <<u, env, C, k>>
Spec == Init /\ [][Next]_vars
KeyProofsSound == go => KeyProofs
UpdProofsSound == go => UpdProofs
RangeProofsSound == go => RangeProofs
IcsSound == go => Ics
=============================================================================

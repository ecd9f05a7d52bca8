---------------------------- MODULE JmtRestoreAlg ---------------------------
(***************************************************************************)
(* Restoration as the implementation performs it.  A restoration R is      *)
(*   pn    the partial nodes, from the root down: [p, ch], p the path, ch  *)
(*         the children: [t, h, cnt, k, v], t "leaf" or "int", h the hash  *)
(*         of an internal node or Unknown                                  *)
(*   fz    nodes to be written        fv   pairs to be written             *)
(*   prev  the last leaf (<<>>: none) num  keys received                   *)
(*   exp   the expected root hash     fin  already complete                *)
(*   res   "ok", "fail" (an error was returned) or "panic"                 *)
(* All nodes have the version VR.                                          *)
(***************************************************************************)
EXTENDS JmtAlg

VR == 1
Unknown == <<"?">>
RLeaf(k, v) == [t |-> "leaf", h |-> Unknown, cnt |-> 0, k |-> k, v |-> v]
RInt(h, cnt) == [t |-> "int", h |-> h, cnt |-> cnt, k |-> 0, v |-> 0]

NewRest(pn, prev, exp, fin) ==
  [pn |-> pn, fz |-> NoNodes, fv |-> {}, prev |-> prev, num |-> 0, exp |-> exp, fin |-> fin, res |-> "ok"]
FreshRest(exp) == NewRest(<<[p |-> <<>>, ch |-> NoCh]>>, <<>>, exp, FALSE)

-----------------------------------------------------------------------------
(* Recovering the partial nodes from what is in storage.                   *)

StoredLeaves(disk) == {x \in DOMAIN disk : disk[x].t = "leaf"}
RightmostLeaf(disk) == CHOOSE x \in StoredLeaves(disk) : \A y \in StoredLeaves(disk) : disk[y].k <= disk[x].k
Parent(p) == SubSeq(p, 1, Len(p) - 1)
RECURSIVE LowestPartial(_, _)
LowestPartial(disk, p) == IF <<VR, p>> \in DOMAIN disk THEN LowestPartial(disk, Parent(p)) ELSE p
RecoverInfo(E, disk, p, below) ==   \* below: the nibble of the partial child, -1 for none
  LET S == {x \in 0..(IF below = -1 THEN NW(E) - 1 ELSE below - 1) : <<VR, Append(p, x)>> \in DOMAIN disk}
      of(x) == LET node == disk[<<VR, Append(p, x)>>]
               IN IF node.t = "leaf" THEN RLeaf(node.k, node.v) ELSE RInt(HashN(E, node), LeafCount(node))
  IN [p |-> p, ch |-> [x \in S |-> of(x)] @@ (IF below = -1 THEN NoCh ELSE (below :> RInt(Unknown, 0)))]
RECURSIVE RecoverUp(_, _, _, _)
RecoverUp(E, disk, p, below) ==
  LET me == RecoverInfo(E, disk, p, below)
  IN IF p = <<>> THEN <<me>> ELSE Append(RecoverUp(E, disk, Parent(p), p[Len(p)]), me)

\* a new restoration over what a previous one may have left
Resume(E, disk, exp) ==
  IF <<VR, <<>>>> \in DOMAIN disk
  THEN [NewRest(<<>>, <<>>, exp, TRUE) EXCEPT !.res = IF HashN(E, disk[<<VR, <<>>>>]) = exp THEN "ok" ELSE "fail"]
  ELSE IF StoredLeaves(disk) = {} THEN FreshRest(exp)
  ELSE LET x == RightmostLeaf(disk)
       IN NewRest(RecoverUp(E, disk, LowestPartial(disk, Parent(x[2])), -1), <<disk[x].k, disk[x].v>>, exp, FALSE)

-----------------------------------------------------------------------------
(* Freezing.                                                               *)

Stop(R, how) == [R EXCEPT !.res = how]
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

FreezeLeaf(R) ==
  IF R.num = 0 THEN R
  ELSE LET n == Last(R.pn)
       IN IF DOMAIN n.ch = {} THEN Stop(R, "panic")
          ELSE LET x == MaxSet(DOMAIN n.ch)
               IN IF n.ch[x].t # "leaf" THEN Stop(R, "panic")
                  ELSE [R EXCEPT !.fz = (<<VR, Append(n.p, x)>> :> LeafN(n.ch[x].k, n.ch[x].v)) @@ @]

RECURSIVE FreezeInts(_, _, _)
FreezeInts(E, R, keep) ==
  IF R.res # "ok" \/ Len(R.pn) <= keep THEN R
  ELSE LET n == Last(R.pn)
           ch == [x \in DOMAIN n.ch |->
                    LET c == n.ch[x]
                    IN IF c.t = "leaf" THEN [h |-> HLeaf(c.k, c.v), ver |-> VR, leaf |-> TRUE, cnt |-> 1]
                       ELSE [h |-> c.h, ver |-> VR, leaf |-> FALSE, cnt |-> c.cnt]]
           node == IntN(ch)
           pn2 == Front(R.pn)
       IN IF (\E x \in DOMAIN ch : ch[x].h = Unknown) \/ ~ValidInt(ch) THEN Stop(R, "panic")
          ELSE LET R2 == [R EXCEPT !.pn = pn2, !.fz = (<<VR, n.p>> :> node) @@ @]
               IN IF pn2 = <<>> THEN R2
                  ELSE LET up == Last(pn2)
                           x == IF DOMAIN up.ch = {} THEN -1 ELSE MaxSet(DOMAIN up.ch)
                       IN IF x = -1 \/ up.ch[x].t # "int" \/ up.ch[x].h # Unknown \/ up.ch[x].cnt # 0 THEN Stop(R2, "panic")
                          ELSE FreezeInts(E, [R2 EXCEPT !.pn[Len(pn2)].ch[x] = RInt(HashN(E, node), LeafCount(node))], keep)

FreezeR(E, R, keep) ==
  IF R.res # "ok" THEN R
  ELSE IF Len(R.pn) > keep /\ Cardinality(DOMAIN Last(R.pn).ch) = 1 /\ \A x \in DOMAIN Last(R.pn).ch : Last(R.pn).ch[x].t = "leaf"
  THEN Stop(R, "fail")
  ELSE FreezeInts(E, FreezeLeaf(R), keep)

-----------------------------------------------------------------------------
(* Adding keys.                                                            *)

SetLastChild(R, x, c) == [R EXCEPT !.pn[Len(R.pn)].ch = (x :> c) @@ @]

AddAtLeaf(E, R, x, old, k, v) ==
  LET have == Len(R.pn)
      cp == CommonNibbles(E, old.k, k)
      R1 == SetLastChild(R, x, RInt(Unknown, 0))
      \* single-child nodes between, and at last the one that has both leaves
      mid == [j \in 1..(cp - have) |-> LET p == SubSeq(E.nib[k], 1, have + j - 1)
                                       IN [p |-> p, ch |-> (E.nib[k][have + j] :> RInt(Unknown, 0))]]
      end == [p |-> SubSeq(E.nib[k], 1, cp), ch |-> (E.nib[old.k][cp + 1] :> RLeaf(old.k, old.v))]
      R2 == [R1 EXCEPT !.pn = @ \o mid \o <<end>>]
      R3 == FreezeR(E, R2, Len(R2.pn))
  IN IF R3.res # "ok" THEN R3
     ELSE IF E.nib[k][cp + 1] <= E.nib[old.k][cp + 1] THEN Stop(R3, "panic")
     ELSE SetLastChild(R3, E.nib[k][cp + 1], RLeaf(k, v))

RECURSIVE AddOneFrom(_, _, _, _, _)
AddOneFrom(E, R, k, v, i) ==
  IF i = ND(E) THEN R
  ELSE IF i >= Len(R.pn) THEN Stop(R, "fail")   \* below a node that is complete
  ELSE LET x == E.nib[k][i + 1]
           ch == R.pn[i + 1].ch
       IN IF x \notin DOMAIN ch
          THEN LET R1 == FreezeR(E, R, i + 1)
               IN IF R1.res # "ok" THEN R1 ELSE SetLastChild(R1, x, RLeaf(k, v))
          ELSE IF ch[x].t = "leaf"
          THEN IF i # Len(R.pn) - 1 THEN Stop(R, "panic") ELSE AddAtLeaf(E, R, x, ch[x], k, v)
          ELSE AddOneFrom(E, R, k, v, i + 1)

RECURSIVE AddAll(_, _, _)
AddAll(E, R, kvs) ==
  IF R.res # "ok" \/ kvs = <<>> THEN R
  ELSE LET k == kvs[1][1] v == kvs[1][2]
       IN IF R.prev # <<>> /\ k <= R.prev[1] THEN Stop(R, "fail")
          ELSE LET R1 == AddOneFrom(E, R, k, v, 0)
               IN IF R1.res # "ok" THEN R1
                  ELSE AddAll(E, [R1 EXCEPT !.fv = @ \cup {<<k, v>>}, !.prev = <<k, v>>, !.num = @ + 1], Tail(kvs))

-----------------------------------------------------------------------------
(* Verifying against the expected root.                                    *)

RECURSIVE LeftSib(_, _, _)
LeftSib(ch, s, w) ==
  IF w = 1
  THEN IF s \notin DOMAIN ch THEN <<Z, TRUE>>
       ELSE IF ch[s].t = "leaf" THEN <<HLeaf(ch[s].k, ch[s].v), TRUE>> ELSE <<ch[s].h, FALSE>>
  ELSE LET a == LeftSib(ch, s, w \div 2)
           b == LeftSib(ch, s + (w \div 2), w \div 2)
       IN IF a[1] = Z /\ b[2] THEN <<b[1], TRUE>>
          ELSE IF a[2] /\ b[1] = Z THEN <<a[1], TRUE>>
          ELSE <<IF Unknown \in {a[1], b[1]} THEN Unknown ELSE HNode(a[1], b[1]), FALSE>>

RECURSIVE TrimLeft(_, _, _, _, _, _)
TrimLeft(E, k, d, left, zeros, want) ==   \* from the last bit upwards
  IF d < 0 THEN left
  ELSE IF Bit(E, k, d) = 1 THEN (IF Last(left) = Z THEN TrimLeft(E, k, d - 1, Front(left), zeros, want) ELSE left)
  ELSE IF zeros > want THEN TrimLeft(E, k, d - 1, left, zeros - 1, want)
  ELSE left

VerifyRest(E, R, right) ==
  LET k == R.prev[1]
      ones == SelectSeq([d \in 1..E.B |-> d - 1], LAMBDA d : Bit(E, k, d) = 1)
      zeros == E.B - Len(ones)
      sib(d) == LET i == d \div E.W
                    w == 2 ^ (E.W - 1 - (d % E.W))
                IN IF i >= Len(R.pn) THEN Z
                   ELSE LeftSib(R.pn[i + 1].ch, OtherHalf(E.nib[k][i + 1], w), w)[1]
      left == [j \in 1..Len(ones) |-> sib(ones[j])]
  IN IF \E j \in 1..Len(left) : left[j] = Unknown THEN Stop(R, "panic")
     ELSE IF zeros < Len(right) THEN Stop(R, "fail")
     ELSE IF VerifyRange(E, R.exp, k, R.prev[2], Rev(TrimLeft(E, k, E.B - 1, left, zeros, Len(right))), right)
     THEN R ELSE Stop(R, "fail")

\* what is written when a chunk is added: res "ok" means that R.fz and R.fv are to be written
AddChunk(E, R, kvs, right) ==
  IF kvs = <<>> \/ R.fin THEN Stop(R, "fail")
  ELSE LET R1 == AddAll(E, R, kvs) IN IF R1.res # "ok" THEN R1 ELSE VerifyRest(E, R1, right)
Written(R) == [R EXCEPT !.fz = NoNodes, !.fv = {}]

-----------------------------------------------------------------------------
\* the last step; fin: nothing to write
Complete(E, R) ==
  LET root == <<VR, <<>>>>
  IN IF R.res = "ok" /\ (root \notin DOMAIN R.fz \/ HashN(E, R.fz[root]) # R.exp) THEN Stop(R, "fail") ELSE R
Finish(E, R) ==
  IF R.fin THEN R
  ELSE LET root == <<VR, <<>>>>
           ch == R.pn[1].ch
           xs == DOMAIN ch
           one == CHOOSE x \in xs : TRUE
       IN IF Len(R.pn) = 1 /\ xs = {} THEN Complete(E, [R EXCEPT !.fz = (root :> NullN) @@ @])
          ELSE IF Len(R.pn) = 1 /\ Cardinality(xs) = 1 /\ ch[one].t = "leaf"
          THEN Complete(E, [R EXCEPT !.fz = (root :> LeafN(ch[one].k, ch[one].v)) @@ @])
          ELSE Complete(E, FreezeR(E, R, 0))
=============================================================================

----------------------------- MODULE JmtProofs -----------------------------
(***************************************************************************)
(* Hashes as terms, and what proofs show.                                  *)
(*                                                                         *)
(* A digest is represented by the number of the term it is the hash of, an *)
(* index into a table TM:  0 is the placeholder of an empty subtree, a     *)
(* negative number an unknown digest, and TM[i] is                         *)
(*   <<0, k, v>>   the leaf of key number k with value number v            *)
(*   <<1, a, b>>   an inner node of the binary tree with halves a and b    *)
(* Hashing is thus injective by construction: collision resistance is an   *)
(* assumption of the specification.                                        *)
(***************************************************************************)
EXTENDS JmtCore
LOCAL INSTANCE SequencesExt

IsTerm(TM, id) == id > 0 /\ id <= Len(TM)
IsLeafTerm(TM, id, k, v) == IsTerm(TM, id) /\ TM[id] = <<0, k, v>>
IsNodeTerm(TM, id) == IsTerm(TM, id) /\ TM[id][1] = 1

(* The digest id is the root hash of the sparse binary Merkle tree of the  *)
(* keys ks (all sharing their first d bits) with their values in C.        *)
\* bits a .. b - 1 of key k
Bits(E, k, a, b) == [j \in 1..(b - a) |-> Bit(E, k, a + j - 1)]
RECURSIVE Smt(_, _, _, _, _, _)
Smt(E, TM, id, ks, C, d) ==
  IF ks = {} THEN id = 0
  ELSE IF Cardinality(ks) = 1
       THEN LET k == CHOOSE k \in ks : TRUE IN IsLeafTerm(TM, id, k, C[k])
       ELSE LET k == MinSet(ks)
                m == E.lcp[k][MaxSet(ks)]
                \* down to where they part, the other halves are empty
                x == FoldLeft(LAMBDA y, b : IF IsNodeTerm(TM, y) /\ TM[y][3 - b] = 0 THEN TM[y][2 + b] ELSE -1,
                              id, Bits(E, k, d, m))
                zero == {j \in ks : Bit(E, j, m) = 0}
            IN /\ IsNodeTerm(TM, x)
               /\ Smt(E, TM, TM[x][2], zero, C, m + 1)
               /\ Smt(E, TM, TM[x][3], ks \ zero, C, m + 1)
SmtOf(E, TM, id, C) == Smt(E, TM, id, Present(E, C), C, 0)

(* The digest id of an internal node with the children ch (tuples          *)
(* <<nibble, digest, ..., is-leaf, ...>>): the part of its little binary   *)
(* tree over the nibbles start .. start + width - 1.                       *)
RECURSIVE Compose(_, _, _, _, _)
Compose(TM, id, ch, start, width) ==
  LET in == {c \in ch : c[1] >= start /\ c[1] < start + width}
  IN IF in = {} THEN id = 0
     ELSE IF Cardinality(in) = 1 /\ (width = 1 \/ \A c \in in : c[4] = 1)
          THEN \A c \in in : c[2] = id
          ELSE /\ width > 1
               /\ IsNodeTerm(TM, id)
               /\ Compose(TM, TM[id][2], in, start, width \div 2)
               /\ Compose(TM, TM[id][3], in, start + width \div 2, width \div 2)

-----------------------------------------------------------------------------
(* Following the path of key k from the digest id of a root down through   *)
(* the siblings sb, listed bottom up as <<kind, digest>>: the digest that  *)
(* remains, or -1 if a sibling does not fit.                               *)
Descend(E, TM, id, k, sb) ==
  LET n == Len(sb)
  IN IF n > E.B THEN -1
     ELSE FoldLeft(LAMBDA x, d :
                     IF ~IsNodeTerm(TM, x) \/ sb[n - d][2] # TM[x][3 - Bit(E, k, d)] THEN -1 ELSE TM[x][2 + Bit(E, k, d)],
                   id, [d \in 1..n |-> d - 1])

(* What a key proof shows about key k under the root hash id: a value, 0   *)
(* for its absence, or -1 if it shows nothing.                             *)
Shows(E, TM, id, k, leaf, sb) ==
  LET x == Descend(E, TM, id, k, sb)
  IN IF x = -1 THEN -1
     ELSE IF leaf = <<>> THEN (IF x = 0 THEN 0 ELSE -1)
     ELSE IF leaf[1] <= 0 \/ leaf[1] > E.n \/ leaf[2] <= 0 \/ ~IsLeafTerm(TM, x, leaf[1], leaf[2]) THEN -1
     ELSE IF leaf[1] = k THEN leaf[2]
     ELSE IF E.lcp[k][leaf[1]] >= Len(sb) THEN 0 ELSE -1

(* The digests on the right of the path of key k, bottom up, in the tree   *)
(* whose root hash is id, down to its leaf.                                *)
RightSibs(E, TM, id, k) ==
  LET go(a, d) == IF ~IsNodeTerm(TM, a[1]) THEN a
                  ELSE IF Bit(E, k, d) = 0 THEN <<TM[a[1]][2], <<TM[a[1]][3]>> \o a[2]>>
                  ELSE <<TM[a[1]][3], a[2]>>
  IN FoldLeft(go, <<id, <<>>>>, [d \in 1..E.B |-> d - 1])[2]
=============================================================================

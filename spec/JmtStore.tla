------------------------------ MODULE JmtStore ------------------------------
(***************************************************************************)
(* The bundled in-memory store, as a state machine.                        *)
(*                                                                         *)
(* M.nodes: node key -> <<node, number of its key if it is a leaf>>;       *)
(* M.log: key -> <<version, value>>s in the order of versions, value 0     *)
(* being a deletion; M.stale: records <<since, node key>>; M.pre: key ->    *)
(* preimage.  Every operation is refused or gives the next state; what a   *)
(* refused one leaves behind is not specified.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoFun == [x \in {} |-> 0]
Set(s) == {s[j] : j \in 1..Len(s)}

MNew(over) == [over |-> over, nodes |-> NoFun, log |-> NoFun, stale |-> {}, pre |-> NoFun]
LogOf(M, k) == IF k \in DOMAIN M.log THEN M.log[k] ELSE <<>>
InOrder(M, k, v) == LET l == LogOf(M, k) IN l = <<>> \/ l[Len(l)][1] <= v
PutVal(M, v, k, w) ==
  LET l == LogOf(M, k)
      l2 == IF l # <<>> /\ l[Len(l)][1] = v THEN SubSeq(l, 1, Len(l) - 1) ELSE l
  IN [M EXCEPT !.log = (k :> Append(l2, <<v, w>>)) @@ @]
RECURSIVE PutVals(_, _)
PutVals(M, vs) == IF vs = <<>> THEN M ELSE PutVals(PutVal(M, vs[1][1], vs[1][2], vs[1][3]), Tail(vs))
ValAt(M, v, k) == LET l == SelectSeq(LogOf(M, k), LAMBDA x : x[1] <= v)
                  IN IF l = <<>> THEN 0 ELSE l[Len(l)][2]

\* a batch: nodes <<node key, node, key or 0>>, values <<version, key, value>> in the order of versions, stale records
SWrite(M, nodes, vals, stale) ==
  LET N == Set(nodes)
      M1 == [M EXCEPT !.nodes = [x \in {n[1] : n \in N} |-> LET n == CHOOSE n \in N : n[1] = x IN <<n[2], n[3]>>] @@ @]
  IN [refuse |-> \/ ~M.over /\ \E n \in N : n[1] \in DOMAIN M.nodes
                 \/ \E x \in Set(vals) : ~InOrder(M, x[2], x[1])
                 \/ Set(stale) \cap M.stale # {},
      M |-> [PutVals(M1, vals) EXCEPT !.stale = @ \cup Set(stale)]]
\* one leaf of key k and its value
SLeaf(M, nk, node, k, ver, w) ==
  [refuse |-> nk \in DOMAIN M.nodes \/ ~InOrder(M, k, ver),
   M |-> PutVal([M EXCEPT !.nodes = (nk :> <<node, k>>) @@ @], ver, k, w)]
SPrune(M, upto) ==
  LET gone == {r \in M.stale : r[1] <= upto}
      del == {r[2] : r \in gone}
  IN [refuse |-> ~(del \subseteq DOMAIN M.nodes) \/ Cardinality(del) < Cardinality(gone),
      M |-> [M EXCEPT !.stale = @ \ gone, !.nodes = [x \in DOMAIN M.nodes \ del |-> M.nodes[x]]]]
SPreimage(M, k, w) == [refuse |-> FALSE, M |-> [M EXCEPT !.pre = (k :> w) @@ @]]
=============================================================================

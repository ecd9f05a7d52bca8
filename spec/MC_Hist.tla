------------------------------- MODULE MC_Hist ------------------------------
(***************************************************************************)
(* Behaviours of the specification, to be replayed into the code: for      *)
(* every shape of a few keys, every distinct state of the versioned tree   *)
(* (JmtCore) that can be reached in a few steps is written out once, with  *)
(* the steps that lead to it and all the steps that can follow.  Every     *)
(* transition is thereby replayed from every state.                        *)
(*                                                                         *)
(* A shape is given by the numbers of leading bits that neighbouring keys  *)
(* share; the harness fills in the other bits.  Keys have 256 bits and     *)
(* nibbles of 4, as in the code.  Values are all 1: the tree does not      *)
(* depend on them, and the harness varies them.                            *)
(***************************************************************************)
EXTENDS JmtCore, Json, IOUtils

CONSTANTS
  Ns,        \* numbers of keys
  Depths,    \* branching depths, in bits
  MaxSteps,  \* steps before the replayed one
  Pairs      \* BOOLEAN: also sequences of two changes, and two versions at once

\* only every Parts-th shape, from number Part
Part == atoi(IOEnv.PART)
Parts == atoi(IOEnv.PARTS)

Sound(a) == \A i, j \in 1..Len(a) : i < j /\ a[i] = a[j] => \E h \in (i + 1)..(j - 1) : a[h] < a[i]
RECURSIVE SeqsOf(_, _)
SeqsOf(S, n) == IF n = 0 THEN {<<>>} ELSE {Append(t, x) : t \in SeqsOf(S, n - 1), x \in S}
ShapeSet == UNION {{a \in SeqsOf(Depths, n - 1) : Sound(a)} : n \in Ns}
RECURSIVE Order(_)
Order(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Order(S \ {x})
AllShapes == TLCEval(Order(ShapeSet))
Mine == {j \in 1..Len(AllShapes) : (j - 1) % Parts = Part}

EnvOf(adj) ==
  LET n == Len(adj) + 1
  IN [n |-> n, W |-> 4, B |-> 256, nib |-> <<>>, lcp |-> LcpRows(256, n, adj), lo |-> LoRows(4, 256, n, adj),
      hi |-> HiRows(4, 256, n, adj)]

VARIABLES u, env, s, lat, low, stale, hist
vars == <<u, env, s, lat, low, stale, hist>>
E == env

\* one change at most of every key, in ascending order
Maps == {SelectSeq([k \in Keys(E) |-> <<k, f[k]>>], LAMBDA x : x[2] # 2) : f \in [Keys(E) -> 0..2]}
Ops == {<<k, v>> : k \in Keys(E), v \in 0..1}
Lists == {<<a, b>> : a, b \in Ops}

Steps ==
  {<<"c", m>> : m \in Maps}
  \cup (IF lat >= 0 /\ Present(E, s.C) # {} THEN {<<"a", m>> : m \in Maps \ {<<>>}} ELSE {})
  \cup (IF stale # {} THEN {<<"p", v>> : v \in {x \in 0..lat : x > low}} ELSE {})
More ==
  (IF Pairs THEN {<<"c", l>> : l \in Lists} \cup {<<"m", <<a>>, <<b>>>> : a, b \in Ops} ELSE {})

Tree0 == [C |-> Empty(E), T |-> NoTree]
Do(x) ==
  CASE x[1] = "c" ->
         LET s2 == Seal(ApplySet(E, s, x[2], lat + 1), lat + 1)
         IN /\ s' = s2 /\ lat' = lat + 1 /\ low' = low
            /\ stale' = stale \cup {<<lat + 1, y>> : y \in NodesOf(s.T) \ NodesOf(s2.T)}
    [] x[1] = "a" ->
         LET s2 == Seal(ApplySet(E, s, x[2], lat), lat)
         IN /\ s' = s2 /\ lat' = lat /\ low' = low
            /\ stale' = stale \cup {<<lat, y>> : y \in NodesOf(s.T) \ NodesOf(s2.T)}
            \* (known finding KF1: an append that brings back a stale node)
            /\ \A r \in stale' : r[2] \notin NodesOf(s2.T)
    [] x[1] = "p" ->
         /\ low' = x[2] /\ s' = s /\ lat' = lat
         /\ stale' = {r \in stale : r[1] > x[2]}

Init == u \in Mine /\ env = TLCEval(EnvOf(AllShapes[u])) /\ s = Tree0 /\ lat = -1 /\ low = -1 /\ stale = {} /\ hist = <<>>
Next == /\ Len(hist) < MaxSteps
        /\ \E x \in Steps : Do(x) /\ hist' = Append(hist, x)
        /\ u' = u /\ env' = env
Spec == Init /\ [][Next]_vars
View == <<u, s, lat, low, stale>>
Emit == PrintT(ToJson([adj |-> AllShapes[u], hist |-> hist, lat |-> lat, next |-> Order(Steps \cup More)]))
=============================================================================

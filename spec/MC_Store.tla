------------------------------ MODULE MC_Store ------------------------------
(***************************************************************************)
(* Every sequence of operations on the bundled store, in bounds: checked   *)
(* against what its history says it has to hold, and (with Show) written   *)
(* out to be replayed into the code.                                       *)
(*                                                                         *)
(* Operations: <<"w", nodes, vals, stale>>, <<"l", node key, key, value>>,  *)
(* <<"p", version>>, <<"i", key, preimage>>.  Node key x is of version      *)
(* (x - 1) % 2; node n is the leaf of key (n - 1), node 1 is no leaf.      *)
(***************************************************************************)
EXTENDS JmtStore, Json, IOUtils

CONSTANTS Depth, Show

VARIABLES M, log, over
vars == <<M, log, over>>

Vers == 0..1
NKs == 1..3
Ks == 1..2
VerOf(x) == (x - 1) % 2
NodeOf(x, n) == <<x, n, n - 1>>

Writes == {<<"w", <<NodeOf(x, n)>>, <<>>, <<>>>> : x \in 1..2, n \in 1..3}
     \cup {<<"w", <<>>, <<<<v, k, w>>>>, <<>>>> : v \in Vers, k \in Ks, w \in 0..1}
     \cup {<<"w", <<>>, <<>>, <<<<v, x>>>>>> : v \in Vers, x \in 1..2}
     \cup {<<"w", <<NodeOf(1, 2), NodeOf(2, 3)>>, <<<<0, 1, 1>>, <<1, 1, 0>>>>, <<<<1, 1>>>>>>,
           <<"w", <<NodeOf(3, 2)>>, <<<<0, 2, 1>>>>, <<<<0, 1>>, <<1, 2>>>>>>}
Ops == Writes
     \cup {<<"l", x, k, w>> : x \in 2..3, k \in Ks, w \in {2}}
     \cup {<<"p", v>> : v \in Vers}
     \cup {<<"i", 1, w>> : w \in 1..2}

Result(m, o) ==
  CASE o[1] = "w" -> SWrite(m, o[2], o[3], o[4])
    [] o[1] = "l" -> SLeaf(m, o[2], o[3] + 1, o[3], VerOf(o[2]), o[4])
    [] o[1] = "p" -> SPrune(m, o[2])
    [] o[1] = "i" -> SPreimage(m, o[2], o[3])

OpSeq == LET RECURSIVE S(_)
             S(T) == IF T = {} THEN <<>> ELSE LET t == CHOOSE t \in T : TRUE IN <<t>> \o S(T \ {t})
         IN S(Ops)
\* of the first operations, those of the part asked for
Mine(o) == IF "PARTS" \in DOMAIN IOEnv
           THEN \E j \in 1..Len(OpSeq) : OpSeq[j] = o /\ j % atoi(IOEnv.PARTS) = atoi(IOEnv.PART)
           ELSE TRUE

Init == over \in BOOLEAN /\ M = MNew(over) /\ log = <<>>
Refused == log # <<>> /\ log[Len(log)][1] = "refused"
Next == /\ Len(log) < Depth /\ ~Refused /\ over' = over
        /\ \E o \in Ops :
             /\ IF log # <<>> THEN TRUE ELSE Mine(o)
             /\ LET r == Result(M, o)
                IN IF r.refuse THEN M' = M /\ log' = log \o <<o, <<"refused">>>>
                   ELSE M' = r.M /\ log' = Append(log, o)
Spec == Init /\ [][Next]_vars

\* what the history says, each in one sentence
Done == SelectSeq(IF Refused THEN SubSeq(log, 1, Len(log) - 2) ELSE log, LAMBDA o : TRUE)
ValsOf(o) == IF o[1] = "w" THEN o[3] ELSE IF o[1] = "l" THEN <<<<VerOf(o[2]), o[3], o[4]>>>> ELSE <<>>
NodesOf(o) == IF o[1] = "w" THEN o[2] ELSE IF o[1] = "l" THEN <<<<o[2], o[3] + 1, o[3]>>>> ELSE <<>>
StaleOf(o) == IF o[1] = "w" THEN Set(o[4]) ELSE {}
\* all writes of key k: <<index, place, version, value>>
ValWrites(k) == UNION {{<<j, y, ValsOf(Done[j])[y][1], ValsOf(Done[j])[y][3]>> : y \in {y \in 1..Len(ValsOf(Done[j])) : ValsOf(Done[j])[y][2] = k}} : j \in 1..Len(Done)}
Later(a, b) == a[3] > b[3] \/ (a[3] = b[3] /\ (a[1] > b[1] \/ (a[1] = b[1] /\ a[2] >= b[2])))
Values == \A k \in Ks, v \in Vers :
  LET W == {x \in ValWrites(k) : x[3] <= v}
  IN ValAt(M, v, k) = IF W = {} THEN 0 ELSE (CHOOSE a \in W : \A b \in W : Later(a, b))[4]
Prunes(j, since) == Done[j][1] = "p" /\ Done[j][2] >= since
Removed(j, x) == \* the j-th operation removed node x
  \E v \in Vers : /\ Prunes(j, v)
                  /\ \E a \in 1..(j - 1) : <<v, x>> \in StaleOf(Done[a]) /\ \A b \in (a + 1)..(j - 1) : ~Prunes(b, v)
Nodes == \A x \in NKs :
  LET W == {j \in 1..Len(Done) : \E y \in 1..Len(NodesOf(Done[j])) : NodesOf(Done[j])[y][1] = x}
      last == CHOOSE j \in W : \A b \in W : b <= j
      held == W # {} /\ \A j \in (last + 1)..Len(Done) : ~Removed(j, x)
  IN /\ (x \in DOMAIN M.nodes) = held
     /\ held => \E y \in 1..Len(NodesOf(Done[last])) : NodesOf(Done[last])[y] = <<x, M.nodes[x][1], M.nodes[x][2]>>
Stale == M.stale = {<<v, x>> \in Vers \X NKs :
                      \E a \in 1..Len(Done) : <<v, x>> \in StaleOf(Done[a]) /\ \A b \in (a + 1)..Len(Done) : ~Prunes(b, v)}
Holds == Values /\ Nodes /\ Stale
\* without permission, no node is ever replaced
Kept == [][~over => \A x \in DOMAIN M.nodes \cap DOMAIN M'.nodes : M'.nodes[x] = M.nodes[x]]_vars
\* each record once
Once == \A v \in Vers, x \in NKs : ~over =>
          \A a \in 1..Len(Done), b \in 1..Len(Done) :
             a < b /\ <<v, x>> \in StaleOf(Done[a]) \cap StaleOf(Done[b]) => \E c \in (a + 1)..(b - 1) : Prunes(c, v)

Emit == Show /\ (Refused \/ Len(log) >= Depth) => PrintT(ToJson([over |-> over, ops |-> SelectSeq(log, LAMBDA o : o[1] # "refused")]))
=============================================================================

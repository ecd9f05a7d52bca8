------------------------------ MODULE MC_Conc ------------------------------
(***************************************************************************)
(* Threads that read the bundled store while one commits versions to it    *)
(* and others prune.  A reader that saw the root of a version which is not  *)
(* given up before it is done finds every node and value of that version:  *)
(* this is what Trace.Mt asks of the code.                                  *)
(*                                                                         *)
(* A version has a root and one leaf per key changed since; the root names  *)
(* the version of each leaf.  The writer stores the nodes (root first, its  *)
(* path being the shortest), then the values, then the stale records, as    *)
(* the code does.  Whole: the lock is held for a whole batch (and a whole   *)
(* pruning), as in the code; otherwise for each part of one, and TLC finds  *)
(* the reading that goes wrong.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Keys, Last, Readers, Pruners, Whole

VARIABLES nodes, vals, stale,  \* the store
          todo, next, floor,    \* the writer: parts to be stored, next version; versions below floor are given up
          prune,                \* the pruners: records left to remove, or "idle"
          rd                    \* the readers
vars == <<nodes, vals, stale, todo, next, floor, prune, rd>>

Writes(v, k) == v = 0 \/ (v + k) % 2 = 0
At(v, k) == CHOOSE w \in 0..v : Writes(w, k) /\ \A u \in (w + 1)..v : ~Writes(u, k)
Root(v) == <<v, 0>>
Leaf(v, k) == <<At(v, k), k>>
RECURSIVE Each(_, _, _)
Each(f(_), P(_), k) == IF k > Keys THEN <<>> ELSE (IF P(k) THEN <<f(k)>> ELSE <<>>) \o Each(f, P, k + 1)
Parts(v) == LET W(k) == Writes(v, k)
            IN <<<<"node", Root(v)>>>>
               \o Each(LAMBDA k : <<"node", <<v, k>>>>, W, 1)
               \o Each(LAMBDA k : <<"val", <<v, k>>>>, W, 1)
Records(v) == IF v = 0 THEN {} ELSE {<<v, Root(v - 1)>>} \cup {<<v, Leaf(v - 1, k)>> : k \in {k \in 1..Keys : Writes(v, k)}}
Of(ps, kind) == {ps[j][2] : j \in {j \in 1..Len(ps) : ps[j][1] = kind}}

Init == /\ nodes = {} /\ vals = {} /\ stale = {} /\ todo = <<>> /\ next = 0 /\ floor = 0
        /\ prune = [p \in 1..Pruners |-> {<<"idle">>}]
        /\ rd = [r \in 1..Readers |-> <<"idle">>]

Begin == /\ todo = <<>> /\ next <= Last /\ todo' = Parts(next)
         /\ UNCHANGED <<nodes, vals, stale, next, floor, prune, rd>>
\* the lock is held for so many parts
Write == /\ todo # <<>>
         /\ LET n == IF Whole THEN Len(todo) ELSE 1
                now == SubSeq(todo, 1, n)
            IN /\ nodes' = nodes \cup Of(now, "node") /\ vals' = vals \cup Of(now, "val")
               /\ todo' = SubSeq(todo, n + 1, Len(todo))
               /\ IF todo' = <<>> THEN next' = next + 1 /\ stale' = stale \cup Records(next) ELSE UNCHANGED <<next, stale>>
         /\ UNCHANGED <<floor, prune, rd>>
GiveUp == /\ floor < next - 1 /\ floor' = floor + 1 /\ UNCHANGED <<nodes, vals, stale, todo, next, prune, rd>>
\* a pruning up to the floor: looked up, then removed
StartPrune(p) == /\ ~Whole /\ prune[p] = {<<"idle">>} /\ prune' = [prune EXCEPT ![p] = {x \in stale : x[1] <= floor}]
                 /\ UNCHANGED <<nodes, vals, stale, todo, next, floor, rd>>
StepPrune(p) == /\ ~Whole /\ prune[p] # {<<"idle">>} /\ prune[p] # {<<"failed">>}
                /\ IF prune[p] = {} THEN prune' = [prune EXCEPT ![p] = {<<"idle">>}] /\ UNCHANGED <<nodes, stale>>
                   ELSE LET x == CHOOSE x \in prune[p] : TRUE
                        IN /\ nodes' = nodes \ {x[2]} /\ stale' = stale \ {x}
                           /\ prune' = [prune EXCEPT ![p] = IF x[2] \in nodes THEN @ \ {x} ELSE {<<"failed">>}]
                /\ UNCHANGED <<vals, todo, next, floor, rd>>
Prune == /\ Whole
         /\ LET gone == {x \in stale : x[1] <= floor}
            IN gone # {} /\ nodes' = nodes \ {x[2] : x \in gone} /\ stale' = stale \ gone
         /\ UNCHANGED <<vals, todo, next, floor, prune, rd>>

ValAt(v, k) == LET W == {w \in 0..v : <<w, k>> \in vals} IN IF W = {} THEN -1 ELSE CHOOSE w \in W : \A u \in W : u <= w
Look(r) == /\ rd[r] = <<"idle">>
           /\ \E v \in floor..next, k \in 1..Keys : v <= Last /\ Root(v) \in nodes /\ rd' = [rd EXCEPT ![r] = <<"root", v, k>>]
           /\ UNCHANGED <<nodes, vals, stale, todo, next, floor, prune>>
Node(r) == /\ rd[r][1] = "root"
           /\ LET v == rd[r][2] k == rd[r][3]
              IN rd' = [rd EXCEPT ![r] = <<"node", v, k, Root(v) \in nodes /\ Leaf(v, k) \in nodes>>]
           /\ UNCHANGED <<nodes, vals, stale, todo, next, floor, prune>>
Value(r) == /\ rd[r][1] = "node"
            /\ LET v == rd[r][2] k == rd[r][3]
               IN rd' = [rd EXCEPT ![r] = <<"done", v, k, rd[r][4], ValAt(v, k)>>]
            /\ UNCHANGED <<nodes, vals, stale, todo, next, floor, prune>>
Again(r) == /\ rd[r][1] = "done" /\ rd' = [rd EXCEPT ![r] = <<"idle">>]
            /\ UNCHANGED <<nodes, vals, stale, todo, next, floor, prune>>

Next == \/ Begin \/ Write \/ GiveUp \/ Prune
        \/ \E p \in 1..Pruners : StartPrune(p) \/ StepPrune(p)
        \/ \E r \in 1..Readers : Look(r) \/ Node(r) \/ Value(r) \/ Again(r)
Spec == Init /\ [][Next]_vars

\* a reading counts unless the version has been given up meanwhile
Whole_ == \A r \in 1..Readers : rd[r][1] = "done" /\ rd[r][2] >= floor => rd[r][4] /\ rd[r][5] = At(rd[r][2], rd[r][3])
NoFail == \A p \in 1..Pruners : prune[p] # {<<"failed">>}
=============================================================================

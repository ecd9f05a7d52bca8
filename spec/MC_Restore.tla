----------------------------- MODULE MC_Restore -----------------------------
(***************************************************************************)
(* Design model of restoration: every way of cutting the pairs of every    *)
(* small tree into chunks, with crashes and resumptions, failing writes    *)
(* and forged chunks in between.                                           *)
(***************************************************************************)
EXTENDS JmtRestoreAlg

CONSTANTS
  Univ,      \* key universes
  Vals,
  MaxCrash,  \* crashes
  MaxFault,  \* failing writes
  MaxBad,    \* chunks that are not the next pairs with the proof that belongs to them
  BadLen     \* length of such chunks

Small == << [W |-> 1, B |-> 3, nib |-> <<<<0, 0, 0>>, <<0, 1, 0>>, <<0, 1, 1>>>>],
            [W |-> 2, B |-> 4, nib |-> <<<<0, 1>>, <<2, 0>>, <<2, 3>>>>],
            [W |-> 2, B |-> 4, nib |-> <<<<0, 0>>, <<0, 1>>, <<0, 3>>, <<2, 0>>>>] >>
Wide == << [W |-> 2, B |-> 4, nib |-> <<<<0, 0>>, <<0, 1>>, <<0, 3>>, <<1, 0>>, <<3, 0>>, <<3, 3>>>>],
           [W |-> 1, B |-> 4, nib |-> <<<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 0, 1, 1>>, <<0, 1, 1, 0>>, <<1, 0, 0, 0>>, <<1, 1, 1, 1>>>>],
           [W |-> 2, B |-> 6, nib |-> <<<<1, 0, 0>>, <<1, 0, 1>>, <<1, 0, 3>>, <<1, 2, 2>>, <<3, 1, 0>>, <<3, 1, 2>>>>],
           [W |-> 3, B |-> 6, nib |-> <<<<0, 0>>, <<0, 5>>, <<0, 6>>, <<4, 1>>, <<5, 1>>, <<5, 2>>>>] >>
Middle == << [W |-> 2, B |-> 4, nib |-> <<<<0, 0>>, <<0, 3>>, <<1, 0>>, <<3, 3>>>>],
             [W |-> 1, B |-> 4, nib |-> <<<<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<0, 1, 1, 0>>, <<1, 1, 1, 1>>>>],
             [W |-> 2, B |-> 6, nib |-> <<<<1, 0, 0>>, <<1, 0, 1>>, <<1, 0, 3>>, <<3, 1, 0>>>>] >>
Universes == CASE Univ = "small" -> Small [] Univ = "middle" -> Middle [] Univ = "wide" -> Wide

VARIABLES
  u, env, C,     \* which universe; the universe, worked out once; the contents
  disk, pairs,   \* nodes and pairs in storage
  on, R,         \* is a restoration under way; its state
  clean,         \* it has received nothing but true pairs in order
  used,          \* <<crashes, faults, bad chunks>>
  bad            \* comparisons that failed
vars == <<u, env, C, disk, pairs, on, R, clean, used, bad>>
StateView == <<u, C, disk, pairs, on, R, clean, used, bad>>
E == env

Tree == TreeNodes(E, [C |-> C, T |-> [p \in Shape(E, C) |-> VR]])
AllPairs == {<<k, C[k]>> : k \in Present(E, C)}
Root0 == RootOf(E, C)
RECURSIVE RightOf0(_, _, _)
RightOf0(h, j, d) == IF h[1] # "n" THEN <<>>
                     ELSE IF Bit(E, j, d) = 0 THEN Append(RightOf0(h[2], j, d + 1), h[3]) ELSE RightOf0(h[3], j, d + 1)
Rights(j) == RightOf0(Root0, j, 0)
Lab(name, ok) == IF ok THEN {} ELSE {name}

Init ==
  /\ u \in 1..Len(Universes)
  /\ env = TLCEval(MakeEnv(Universes[u].W, Universes[u].B, Universes[u].nib))
  /\ C \in [1..Len(Universes[u].nib) -> Vals \cup {0}]
  /\ disk = NoNodes /\ pairs = {} /\ on = FALSE /\ R = FreshRest(Root0)
  /\ clean = TRUE /\ used = <<0, 0, 0>> /\ bad = {}

From == IF R.prev = <<>> THEN 0 ELSE R.prev[1]
\* the pairs that are still to come, after key j
After(j) == LET ks == SelectSeq(KeySeq(E, C), LAMBDA k : k > j) IN [i \in 1..Len(ks) |-> <<ks[i], C[ks[i]]>>]

Start ==
  /\ ~on
  /\ \/ R' = Resume(E, disk, Root0)
     \/ disk = NoNodes /\ R' = FreshRest(Root0)
  /\ on' = TRUE /\ clean' = TRUE
  /\ bad' = Lab("resume fails", R'.res = "ok")
  /\ UNCHANGED <<u, env, C, disk, pairs, used>>

Store(R2) == disk' = R2.fz @@ disk /\ pairs' = pairs \cup R2.fv
NoStore == disk' = disk /\ pairs' = pairs
\* short of failures, no node is written twice: a store need not allow it
Once(R2) == Lab("a stored node is written again",
                (clean /\ used[2] = 0) => DOMAIN R2.fz \cap DOMAIN disk = {})

\* the next pairs, with the proof that belongs to them
Good ==
  /\ on /\ clean /\ ~R.fin
  /\ LET rest == After(From)
     IN \E n \in 1..Len(rest) :
          LET kvs == SubSeq(rest, 1, n)
              R2 == AddChunk(E, R, kvs, Rights(kvs[n][1]))
          IN \/ /\ bad' = Lab("good chunk refused", R2.res = "ok") \cup Once(R2)
                /\ Store(R2) /\ R' = Written(R2)
                /\ UNCHANGED <<u, env, C, on, clean, used>>
             \/ \* the write fails, without effect or with
                /\ used[2] < MaxFault /\ used' = [used EXCEPT ![2] = @ + 1]
                /\ bad' = {} /\ R' = R2
                /\ (NoStore \/ Store(R2))
                /\ UNCHANGED <<u, env, C, on, clean>>

RECURSIVE Terms(_)
Terms(t) == IF t[1] = "n" THEN {t} \cup Terms(t[2]) \cup Terms(t[3]) ELSE {t}
Digests == Terms(Root0) \cup {Z, <<"x">>}
RECURSIVE SeqsTo(_, _)
SeqsTo(S, n) == IF n = 0 THEN {<<>>}
                ELSE LET T == SeqsTo(S, n - 1) IN T \cup {Append(t, x) : t \in {y \in T : Len(y) = n - 1}, x \in S}
BadRights == SeqsTo(Digests, 2) \cup {Rights(k) : k \in Present(E, C)}
BadKvs == SeqsTo({<<k, v>> : k \in Keys(E), v \in Vals \cup {9}}, BadLen) \ {<<>>}

Forged ==
  /\ on /\ used[3] < MaxBad
  /\ \E kvs \in BadKvs, right \in BadRights :
       LET rest == After(From)
           n == Len(kvs)
           true == n <= Len(rest) /\ SubSeq(rest, 1, n) = kvs
           good == true /\ right = Rights(kvs[n][1])
           R2 == AddChunk(E, R, kvs, right)
       IN /\ ~good
          /\ used' = [used EXCEPT ![3] = @ + 1]
          /\ bad' = Lab("forged chunk accepted", clean => R2.res # "ok") \cup Lab("panic", R2.res # "panic")
          /\ IF R2.res = "panic" THEN on' = FALSE /\ R' = FreshRest(Root0) /\ clean' = TRUE /\ NoStore
             ELSE IF R2.res = "ok" THEN on' = TRUE /\ R' = Written(R2) /\ clean' = FALSE /\ Store(R2)
             ELSE on' = TRUE /\ R' = [R2 EXCEPT !.res = "ok"] /\ clean' = FALSE /\ NoStore
  /\ UNCHANGED <<u, env, C>>

\* after a forged chunk: the pairs that a client believes are next
Onward ==
  /\ on /\ ~clean /\ ~R.fin
  /\ \E from \in {From} \cup {j \in Keys(E) : j < From} :
     LET rest == After(from)
     IN \E n \in 1..Len(rest) :
          LET kvs == SubSeq(rest, 1, n)
              R2 == AddChunk(E, R, kvs, Rights(kvs[n][1]))
          IN /\ IF R2.res = "ok" THEN Store(R2) /\ R' = Written(R2) /\ on' = TRUE
                ELSE NoStore /\ on' = FALSE /\ R' = FreshRest(Root0)
             /\ bad' = Lab("panic", R2.res # "panic")
  /\ clean' = (on' = FALSE)
  /\ UNCHANGED <<u, env, C, used>>

FinishIt ==
  /\ on
  /\ LET R2 == Finish(E, R)
         all == R.fin \/ After(From) = <<>>
     IN \/ /\ bad' = Lab("finish", clean => (R2.res = "ok" <=> all)) \cup Lab("panic", R2.res # "panic")
                   \cup (IF R2.res = "ok" /\ ~R.fin THEN Once(R2) ELSE {})
           /\ (IF R2.res = "ok" THEN Store(R2) ELSE NoStore)
           /\ used' = used
        \/ /\ R2.res = "ok" /\ ~R.fin /\ used[2] < MaxFault /\ used' = [used EXCEPT ![2] = @ + 1]
           /\ bad' = {}
           /\ (NoStore \/ Store(R2))
  /\ on' = FALSE /\ R' = FreshRest(Root0) /\ clean' = TRUE
  /\ UNCHANGED <<u, env, C>>

Crash ==
  /\ on /\ used[1] < MaxCrash /\ used' = [used EXCEPT ![1] = @ + 1]
  /\ on' = FALSE /\ R' = FreshRest(Root0) /\ clean' = TRUE /\ bad' = {}
  /\ UNCHANGED <<u, env, C, disk, pairs>>

Next == bad = {} /\ (Start \/ Good \/ Forged \/ Onward \/ FinishIt \/ Crash)
Spec == Init /\ [][Next]_vars

Holds == bad = {}
\* only what belongs to the tree is ever stored
Belongs == /\ LET T == Tree IN \A x \in DOMAIN disk : x \in DOMAIN T /\ T[x] = disk[x]
           /\ pairs \subseteq AllPairs
\* once there is a root, everything is there
RootLast == <<VR, <<>>>> \in DOMAIN disk => disk = Tree /\ pairs = AllPairs
\* a chunk that was accepted is in storage, but for the last leaf and the nodes above it
Kept == on /\ clean /\ R.prev # <<>> /\ R.fz = NoNodes /\ R.fv = {} =>
          /\ {p \in AllPairs : p[1] <= From} \subseteq pairs
          /\ \A x \in DOMAIN Tree : Tree[x].t = "leaf" /\ Tree[x].k < From => x \in DOMAIN disk
=============================================================================

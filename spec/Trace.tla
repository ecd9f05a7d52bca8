------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: is what the code did a behaviour of the               *)
(* specification?                                                          *)
(*                                                                         *)
(* The harness runs programs against the real code and records, one event  *)
(* per operation, its arguments and everything observable about its        *)
(* outcome.  Here every event is a step: the state of the specification    *)
(* moves by the arguments alone, and the outcome is compared with the one  *)
(* the specification allows.  `bad' collects the names of the comparisons  *)
(* that failed.  Every trace of the file is an initial state, so that TLC  *)
(* validates them in parallel.                                             *)
(*                                                                         *)
(* Props is the set of properties under check.  Every comparison belongs   *)
(* to a set of properties, always including those that are about the       *)
(* circumstances (ctx) of the store it was made on: pruned, appended to,   *)
(* restored, forked, reopened.                                             *)
(***************************************************************************)
EXTENDS JmtProofs, JmtStore, Json, IOUtils, SequencesExt

CONSTANT Props

Traces == JsonDeserialize(IOEnv.TRACES)
NT == Len(Traces)

VARIABLES tr, env, i, st, bad
vars == <<tr, env, i, st, bad>>

Chk(ps, label, cond) == IF ps \cap Props = {} THEN {} ELSE IF cond THEN {} ELSE {label}
All == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
        "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24"}

Err == -1
Panic == -2
NoRoot == -3
NoneCode == -4


-----------------------------------------------------------------------------
(* Stores.                                                                 *)
(*   hist   version -> content           tree   version -> versioned tree  *)
(*   lat    latest version, -2 if none   low    pruned below this version  *)
(*   stale  stale records <<since, node>>                                  *)
(*   nodes  stored nodes <<version, lo, depth>>                            *)
(*   roots  version -> digest returned by the commit                       *)
(*   vh     node -> digest, as observed                                    *)
(*   leak   key -> value that storage still holds from a version before a  *)
(*          restored one that lacks the key (known finding KF2)            *)
(*   ctx    the properties about what this store went through              *)
(*   rest   the restoration in progress                                    *)

NoLat == -2
NewStore == [hist |-> NoFun, tree |-> NoFun, lat |-> NoLat, low |-> -1, stale |-> {}, nodes |-> {},
             roots |-> NoFun, vh |-> NoFun, leak |-> NoFun, ctx |-> {}, rest |-> [on |-> FALSE]]
Known(B, v) == v \in DOMAIN B.hist
Readable(B, v) == Known(B, v) /\ v >= B.low

InitSt == [S |-> <<>>, P |-> NoFun, I |-> NoFun, M |-> NoFun, B |-> NoFun, stop |-> FALSE]

-----------------------------------------------------------------------------
(* Commits.                                                                *)

Start(E, B, v) == IF Known(B, v) THEN [C |-> B.hist[v], T |-> B.tree[v]]
                  ELSE [C |-> Empty(E), T |-> NoTree]

\* what an event of kind "compute" should bring about
Outcome(E, B, e) ==
  LET app == e.api = "append"
      s0 == Start(E, B, IF app THEN e.ver ELSE e.ver - 1)
      cs == Chain(E, s0, e.sets, e.ver)
      n == Len(cs)
      prev(j) == IF j = 1 THEN s0 ELSE cs[j - 1]
  IN [ver |-> e.ver, app |-> app, s0 |-> s0, cs |-> cs,
      nodes |-> UNION {{x \in NodesOf(cs[j].T) : x[1] = e.ver + j - 1} : j \in 1..n},
      stale |-> UNION {{<<e.ver + j - 1, x>> : x \in NodesOf(prev(j).T) \ NodesOf(cs[j].T)} : j \in 1..n},
      s |-> e.s, roots |-> <<>>, vh |-> NoFun]

Triple(x) == <<x[1], x[2], x[3]>>

\* a node record nd = <<ver, lo, d, kind, leaves, digest, key, value, children>> is the node at its
\* path in the tree s, given the digests VH of the nodes below
NodeOK(E, TM, s, nd, VH) ==
  LET p == <<nd[2], nd[3]>>
      ks == KeysAt(E, s.C, p)
      c == Cardinality(ks)
  IN IF c = 0 THEN nd[4] = 0 /\ nd[6] = 0
     ELSE IF c = 1
     THEN LET k == CHOOSE k \in ks : TRUE
          IN nd[4] = 1 /\ nd[7] = k /\ nd[8] = s.C[k] /\ IsLeafTerm(TM, nd[6], k, s.C[k])
     ELSE LET cps == ChildPaths(E, s.C, p)
              ch == Set(nd[9])
              want(q) == LET cnt == Cardinality(KeysAt(E, s.C, q))
                             x == <<s.T[q], q[1], q[2]>>
                         IN <<NibbleAt(E, q), IF x \in DOMAIN VH THEN VH[x] ELSE -7,
                              s.T[q], IF cnt = 1 THEN 1 ELSE 0, cnt>>
          IN /\ nd[4] = 2
             /\ nd[5] = c
             /\ Len(nd[9]) = Cardinality(cps)
             /\ ch = {want(q) : q \in cps}
             /\ Compose(TM, nd[6], ch, 0, 16)

\* the digests of the nodes listed, as a function
Digests(ns) == LET D == TLCEval({Triple(ns[j]) : j \in 1..Len(ns)})
               IN FoldLeft(LAMBDA f, x : [f EXCEPT ![Triple(x)] = x[6]], TLCEval([t \in D |-> -1]), ns)

LastWrites(ops) == {<<ops[j][1], ops[j][2]>> :
                      j \in {j \in 1..Len(ops) : \A h \in (j + 1)..Len(ops) : ops[h][1] # ops[j][1]}}

\* the values written at each version bring its content about
ValsOK(E, o, e) ==
  LET V == Set(e.vals)
      at(j, k) == {x \in V : x[1] = o.ver + j - 1 /\ x[2] = k}
      prev(j) == IF j = 1 THEN o.s0 ELSE o.cs[j - 1]
  IN /\ \A x \in V : x[1] \in o.ver..(o.ver + Len(o.cs) - 1) /\ x[2] \in Keys(E)
     /\ \A j \in 1..Len(o.cs), k \in Keys(E) :
          LET a == at(j, k) IN IF a = {} THEN o.cs[j].C[k] = prev(j).C[k]
                               ELSE \A x \in a : x[3] = o.cs[j].C[k]

StatsOK(E, o, e) ==
  /\ Len(e.stats) = Len(o.cs)
  /\ \A j \in 1..Len(o.cs) :
       LET old == IF j = 1 THEN o.s0 ELSE o.cs[j - 1]
           new == o.cs[j]
           add == NodesOf(new.T) \ NodesOf(old.T)
           del == NodesOf(old.T) \ NodesOf(new.T)
           lv(s, X) == {x \in X : Cardinality(KeysAt(E, s.C, <<x[2], x[3]>>)) = 1}
       IN e.stats[j] = <<Cardinality(add), Cardinality(lv(new, add)), Cardinality(del), Cardinality(lv(old, del))>>

AppendOK(E, B, e) == B.lat = e.ver /\ Present(E, B.hist[e.ver]) # {}

WithProof(e) == e.api \in {"setp", "setsp"}

\* the comparisons of the outcome of a computation
ComputeRoots(E, TM, o, e) ==
  Len(e.roots) = Len(o.cs) /\ \A j \in 1..Len(o.cs) : SmtOf(E, TM, e.roots[j], o.cs[j].C)
ComputeNodes(E, TM, B, o, e) ==
  LET got == {Triple(e.nodes[j]) : j \in 1..Len(e.nodes)}
      VH == Digests(e.nodes) @@ B.vh
      all == o.cs[Len(o.cs)]
  IN /\ Len(e.nodes) = Cardinality(got)
     /\ IF o.app
        THEN got \subseteq NodesOf(all.T) /\ NodesOf(all.T) \subseteq got \cup B.nodes
        ELSE got = o.nodes
     /\ \A j \in 1..Len(e.nodes) :
          LET nd == e.nodes[j] IN NodeOK(E, TM, o.cs[nd[1] - o.ver + 1], nd, VH)
     /\ \A j \in 1..Len(o.cs) : LET x == <<o.ver + j - 1, 1, 0>> IN x \in DOMAIN VH /\ VH[x] = e.roots[j]
ComputeStale(o, e) ==
  Len(e.stale) = Cardinality(o.stale) /\ {<<e.stale[j][1], Triple(e.stale[j][2])>> : j \in 1..Len(e.stale)} = o.stale
ComputeUpd(o, e) == WithProof(e) =>
  /\ Len(e.upd) = Len(o.cs)
  /\ \A j \in 1..Len(e.upd) : e.upd[j] = <<Len(e.sets[j]), 0>>

Compute(E, TM, q, e) ==
  LET B == q.S[e.s]
      o == Outcome(E, B, e)
      may == e.api = "append" => AppendOK(E, B, e)
      C == B.ctx \cup (IF e.api = "append" THEN {"C19"} ELSE {})
           \cup (IF e.api \in {"batch", "batchh"} THEN {"C14"} ELSE {})
           \cup (IF o.s0.T = NoTree \/ Present(E, o.s0.C) = {} THEN {"C20"} ELSE {})
  IN IF ~may
     THEN [s |-> q, b |-> Chk({"C19"}, "append must be refused", e.res = Err)]
     ELSE IF e.res # 0
     THEN [s |-> [q EXCEPT !.stop = TRUE], b |-> Chk(All, "valid write refused", FALSE)]
     ELSE LET p == [o EXCEPT !.roots = e.roots, !.vh = Digests(e.nodes)]
          IN [s |-> [q EXCEPT !.P = (e.pid :> p) @@ @],
              b |-> Chk(C \cup {"C02"}, "root hash of the contents", ComputeRoots(E, TM, o, e))
                    \cup Chk(C \cup {"C09"}, "new nodes", ComputeNodes(E, TM, B, o, e))
                    \cup Chk(C \cup {"C11"}, "stale record", ComputeStale(o, e))
                    \cup Chk(C \cup {"C01"}, "values written", ValsOK(E, o, e))
                    \cup (IF o.app THEN {} ELSE Chk(C \cup {"C13"}, "statistics", StatsOK(E, o, e)))
                    \cup Chk(C \cup {"C07"}, "update proofs verify", ComputeUpd(o, e))]

Store(E, q, e) ==
  LET p == q.P[e.pid]
      B == q.S[e.s]
      n == Len(p.cs)
      vs == p.ver..(p.ver + n - 1)
      kf == p.app /\ \E r \in B.stale \cup p.stale : r[2] \in NodesOf(p.cs[n].T)
      B2 == [B EXCEPT !.hist = [v \in vs |-> p.cs[v - p.ver + 1].C] @@ @,
                      !.tree = [v \in vs |-> p.cs[v - p.ver + 1].T] @@ @,
                      !.lat = p.ver + n - 1,
                      !.stale = @ \cup p.stale,
                      !.nodes = @ \cup p.nodes,
                      !.roots = [v \in vs |-> p.roots[v - p.ver + 1]] @@ @,
                      !.vh = p.vh @@ @,
                      !.ctx = @ \cup (IF p.app THEN {"C19"} ELSE {})]
  IN [s |-> [q EXCEPT !.S[e.s] = B2, !.stop = kf],
      b |-> Chk(B.ctx \cup {"C09"}, "a stored node was overwritten", e.res = 0 /\ (p.app \/ e.over = 0))]

Prune(E, q, e) ==
  LET B == q.S[e.s]
      gone == {r \in B.stale : r[1] <= e.upto}
      B2 == [B EXCEPT !.nodes = @ \ {r[2] : r \in gone},
                      !.stale = @ \ gone,
                      !.low = IF e.upto > @ THEN e.upto ELSE @,
                      !.ctx = @ \cup {"C10"}]
      left == {Triple(e.left[j]) : j \in 1..Len(e.left)}
      need == UNION {NodesOf(B.tree[v]) : v \in {v \in DOMAIN B.tree : v >= B2.low}}
  IN [s |-> [q EXCEPT !.S[e.s] = B2],
      b |-> Chk(B.ctx \cup {"C11"}, "stale record names a node that is not stored", e.res = 0 /\ e.miss = 0)
            \cup Chk(B.ctx \cup {"C11"}, "nodes left after pruning", left = B2.nodes)
            \cup Chk(B.ctx \cup {"C11"}, "pruning leaves garbage", "C19" \in B.ctx \/ left \subseteq need)
            \cup Chk(B.ctx \cup {"C10"}, "pruning removed a node in use", need \subseteq left)]

\* everything stored is right
Dump(E, TM, q, e) ==
  LET B == q.S[e.s]
      VH == Digests(e.nodes)
      \* (all versions that use a node have the same pairs below it)
      use(x) == {v \in DOMAIN B.tree : v >= B.low /\ <<x[2], x[3]>> \in DOMAIN B.tree[v] /\ B.tree[v][<<x[2], x[3]>>] = x[1]}
  IN [s |-> q,
      b |-> Chk(B.ctx \cup {"C09"}, "nodes stored", {Triple(e.nodes[j]) : j \in 1..Len(e.nodes)} = B.nodes)
            \cup Chk(B.ctx \cup {"C09"}, "stored tree",
                 \A j \in 1..Len(e.nodes) :
                   LET vs == use(Triple(e.nodes[j]))
                       v == MaxSet(vs)
                   IN vs # {} => NodeOK(E, TM, [C |-> B.hist[v], T |-> B.tree[v]], e.nodes[j], VH))]

-----------------------------------------------------------------------------
(* Reading.                                                                *)

KeyProofOK(E, TM, root, k, c, leaf, sb) == Shows(E, TM, root, k, leaf, sb) = c

\* one row <<key, plain read, read with proof, leaf, siblings, accepted claims>>
ReadRow(E, TM, B, v, r) ==
  LET k == r[1]
      c == B.hist[v][k]
      C == B.ctx
  IN IF Readable(B, v)
     THEN Chk(C \cup {"C01"}, "plain read", r[2] = c \/ (c = 0 /\ k \in DOMAIN B.leak /\ r[2] = B.leak[k]))
          \cup Chk(C \cup {"C01"}, "read with proof", r[3] = c)
          \cup Chk(C \cup {"C03"}, "the proof of a read shows its result", r[3] >= 0 /\ KeyProofOK(E, TM, B.roots[v], k, c, r[4], r[5]))
          \cup Chk(C \cup {"C03"}, "the proof of a read is accepted for its result only", r[6] = <<c>>)
          \cup Chk(C \cup {"C03"}, "root hash and leaf of the proof of a read",
                   r[4] # <<>> => r[7] = <<B.roots[v], r[4][1], r[4][2]>>)
     ELSE Chk(C \cup (IF Known(B, v) THEN {"C11"} ELSE {"C20"}), "reading a version without a root", r[3] = NoRoot)

Reads(E, TM, q, e) ==
  [s |-> q, b |-> UNION {ReadRow(E, TM, q.S[e.s], e.ver, e.rows[j]) : j \in 1..Len(e.rows)}]

\* one row <<version, root hash, optional root hash, leaf count>>
RootRow(E, B, r) ==
  IF Readable(B, r[1])
  THEN Chk(B.ctx \cup {"C20", "C02"}, "root hash of a version", r[2] = B.roots[r[1]] /\ r[3] = r[2])
       \cup Chk(B.ctx \cup {"C13"}, "leaf count", r[4] = Cardinality(Present(E, B.hist[r[1]])))
  ELSE Chk(B.ctx \cup (IF Known(B, r[1]) THEN {"C11"} ELSE {"C20"}), "version without a root",
           r[2] = Err /\ r[3] = NoneCode /\ r[4] = Err)
Roots(E, q, e) == [s |-> q, b |-> UNION {RootRow(E, q.S[e.s], e.rows[j]) : j \in 1..Len(e.rows)}]

\* the pairs an iterator has to yield
Pairs(E, C, mode, from) ==
  LET ks == KeySeq(E, C)
      ok == IF mode = "key" THEN SelectSeq(ks, LAMBDA k : k >= from) ELSE SubSeq(ks, from + 1, Len(ks))
  IN [j \in 1..Len(ok) |-> <<ok[j], C[ok[j]]>>]
IterOK(E, C, e) == e.res = 0 /\ e.out = Pairs(E, C, e.mode, e.from) \o <<<<0>>, <<0>>, <<0>>>>
IterProp(e) == {IF e.mode = "key" THEN "C12" ELSE "C13"}
Iter(E, q, e) ==
  LET B == q.S[e.s]
  IN [s |-> q,
      b |-> IF Readable(B, e.ver)
            THEN Chk(B.ctx \cup IterProp(e), "iteration", IterOK(E, B.hist[e.ver], e))
            ELSE Chk(B.ctx \cup {"C20"}, "iterating over a version without a root", e.res = Err)]
INew(E, q, e) ==
  LET B == q.S[e.s]
  IN [s |-> [q EXCEPT !.I = (e.id :> [left |-> Pairs(E, B.hist[e.ver], e.mode, e.from), s |-> e.s,
                                      props |-> IterProp(e)]) @@ @],
      b |-> Chk(B.ctx \cup {"C22"} \cup IterProp(e), "starting an iterator", e.res = 0)]
INext(E, q, e) ==
  LET it == q.I[e.id]
      C == q.S[it.s].ctx \cup {"C22"} \cup it.props
  IN IF it.left = <<>> THEN [s |-> q, b |-> Chk(C, "iterator goes on past the end", e.out = <<0>>)]
     ELSE [s |-> [q EXCEPT !.I[e.id].left = Tail(@)],
           b |-> Chk(C, "next pair of an iterator", e.out = it.left[1])]

\* a membership proof <<leaf, siblings, accepted>> for key k
MemOK(E, TM, root, k, v, m) == k > 0 /\ m[1] = <<k, v>> /\ Shows(E, TM, root, k, m[1], m[2]) = v /\ m[3] = <<v>>
ExclOK(E, TM, C, root, e) ==
  LET l == LeftOf(E, C, e.k)
      r == RightOf(E, C, e.k)
  IN /\ e.res = 0
     /\ IF C[e.k] # 0 THEN e.kind = "found" /\ e.val = C[e.k] /\ MemOK(E, TM, root, e.k, C[e.k], e.l)
        ELSE IF l = 0 THEN e.kind = "left" /\ MemOK(E, TM, root, r, C[r], e.r)
        ELSE IF r = 0 THEN e.kind = "right" /\ MemOK(E, TM, root, l, C[l], e.l)
        ELSE e.kind = "mid" /\ MemOK(E, TM, root, l, C[l], e.l) /\ MemOK(E, TM, root, r, C[r], e.r)
Excl(E, TM, q, e) ==
  LET B == q.S[e.s]
  IN [s |-> q,
      b |-> IF ~Readable(B, e.ver) THEN Chk(B.ctx \cup {"C05"}, "exclusion proof without a root", e.res = NoRoot)
            ELSE IF Present(E, B.hist[e.ver]) = {} THEN Chk(B.ctx \cup {"C05"}, "exclusion proof of an empty tree", e.res = Err)
            ELSE Chk(B.ctx \cup {"C05"}, "exclusion proof", ExclOK(E, TM, B.hist[e.ver], B.roots[e.ver], e))]

\* ICS23: e.acc and e.acc2 list the claims <<claimed key, claimed value (0: absence), right root?>>
\* that are accepted under the published proof specification and under the one the crate exports
IcsOK(E, C, e) ==
  LET l == LeftOf(E, C, e.k)
      r == RightOf(E, C, e.k)
  IN /\ e.res = 0
     /\ e.val = C[e.k]
     /\ e.kind = IF C[e.k] # 0 THEN "exist" ELSE "nonexist"
     /\ C[e.k] = 0 => e.l = l /\ e.r = r
     /\ <<e.k, C[e.k], 1>> \in Set(e.acc)
     /\ <<e.k, C[e.k], 1>> \in Set(e.acc2)
TrueClaims(C, acc) == \A a \in Set(acc) : a[3] = 1 /\ a[1] > 0 /\ a[2] >= 0 /\ C[a[1]] = a[2]
IcsSound(E, C, e) == TrueClaims(C, e.acc) /\ TrueClaims(C, e.acc2)
Ics(E, q, e) ==
  LET B == q.S[e.s]
      C == B.hist[e.ver]
  IN [s |-> q,
      b |-> IF ~Readable(B, e.ver) \/ Present(E, B.hist[e.ver]) = {}
            THEN Chk(B.ctx \cup {"C06"}, "ICS23 proof of nothing", e.res < 0)
            ELSE Chk(B.ctx \cup {"C06"}, "ICS23 proof", IcsOK(E, C, e))
                 \cup Chk(B.ctx \cup {"C06"}, "ICS23 proof accepted for something else", IcsSound(E, C, e))]

IcsForged(q, e) ==
  [s |-> q, b |-> Chk({"C06"}, "an altered ICS23 proof was accepted", TrueClaims(q.S[e.s].hist[e.ver], e.acc))]

RangeOK(E, TM, C, root, e) ==
  IF C[e.k] = 0 THEN e.res = Err
  ELSE /\ e.res = 0
       /\ [j \in 1..Len(e.sb) |-> e.sb[j][2]] = RightSibs(E, TM, root, e.k)
       /\ e.ok = 0
       /\ e.other = 0
RangeEv(E, TM, q, e) ==
  LET B == q.S[e.s]
  IN [s |-> q,
      b |-> IF ~Readable(B, e.ver) THEN Chk(B.ctx \cup {"C18"}, "range proof without a root", e.res = NoRoot)
            ELSE Chk(B.ctx \cup {"C18"}, "range proof", RangeOK(E, TM, B.hist[e.ver], B.roots[e.ver], e))]

-----------------------------------------------------------------------------
(* Forged proofs: whatever was accepted has to be true.                    *)

Forged(E, q, e) ==
  LET C == q.S[e.s].hist[e.ver]
  IN [s |-> q,
      b |-> Chk({"C04"}, "a false claim about a key was proven",
                \A j \in 1..Len(e.acc) : LET a == e.acc[j] IN a[2] >= 0 /\ C[a[1]] = a[2])
            \cup Chk({"C04"}, "verification crashed", e.panics = 0)]
UForged(E, TM, q, e) ==
  LET C == q.S[e.s].hist[e.ver]
  IN [s |-> q,
      b |-> Chk({"C08"}, "a false transition was proven",
                \A j \in 1..Len(e.acc) : SmtOf(E, TM, e.acc[j][2], ApplyOps(C, e.acc[j][1])))
            \cup Chk({"C08"}, "verification crashed", e.panics = 0)]
RForged(E, q, e) ==
  LET C == q.S[e.s].hist[e.ver]
  IN [s |-> q,
      b |-> Chk({"C18"}, "a range proof showed a leaf that is not there",
                \A j \in 1..Len(e.acc) : LET a == e.acc[j] IN a[1] > 0 /\ a[2] > 0 /\ C[a[1]] = a[2])
            \cup Chk({"C18"}, "verification crashed", e.panics = 0)]

-----------------------------------------------------------------------------
(* The outcomes of several interfaces for the same changes.                *)

Agree(E, TM, q, e) ==
  LET B == q.S[e.s]
      x == e.outs
      same(f(_)) == \A j \in 2..Len(x) : f(x[j]) = f(x[1])
      o == Outcome(E, B, [s |-> e.s, ver |-> e.ver, api |-> "sets", sets |-> e.sets])
  IN [s |-> q,
      b |-> Chk({"C14"}, "an interface refused", \A j \in 1..Len(x) : x[j].res = 0)
            \cup Chk({"C14"}, "root hashes differ", same(LAMBDA y : y.roots))
            \cup Chk({"C14"}, "root hash of the contents", ComputeRoots(E, TM, o, x[1]))
            \cup Chk({"C14"}, "nodes differ", same(LAMBDA y : Set(y.nodes)))
            \cup Chk({"C14"}, "values differ", same(LAMBDA y : Set(y.vals)))
            \cup Chk({"C14"}, "stale records differ", same(LAMBDA y : Set(y.stale)))]

-----------------------------------------------------------------------------
(* Faults: an operation under a fault fails or is right.                   *)

\* until it reports the first error an iterator is right; from then on it may skip pairs and end early,
\* but what it yields is there
RECURSIVE SubseqFrom(_, _)
SubseqFrom(x, y) == IF x = <<>> THEN TRUE
                    ELSE IF y = <<>> THEN FALSE
                    ELSE IF x[1] = y[1] THEN SubseqFrom(Tail(x), Tail(y)) ELSE SubseqFrom(x, Tail(y))
IterFault(E, C, e) ==
  LET want == Pairs(E, C, e.mode, e.from)
      isp(x) == Len(x) = 2
      got == SelectSeq(e.out, isp)
      errs == {j \in 1..Len(e.out) : Len(e.out[j]) = 1 /\ e.out[j][1] < 0}
      stop == IF errs = {} THEN Len(e.out) ELSE MinSet(errs) - 1
      first == SelectSeq(SubSeq(e.out, 1, stop), isp)
  IN \/ e.res < 0
     \/ /\ Len(first) <= Len(want) /\ first = SubSeq(want, 1, Len(first))
        /\ (\E j \in 1..stop : e.out[j] = <<0>>) => first = want
        /\ SubseqFrom(got, want)
Inner(E, TM, B, e) ==
  CASE e.e = "get" -> e.out = B.hist[e.ver][e.k]
    [] e.e = "getp" -> e.out = B.hist[e.ver][e.k] /\ KeyProofOK(E, TM, B.roots[e.ver], e.k, e.out, e.leaf, e.sb)
    [] e.e = "root" -> e.row[2] \in {Err, Panic, B.roots[e.ver]}
                       /\ e.row[3] \in {Err, Panic, B.roots[e.ver]} \cup (IF e.miss THEN {NoneCode} ELSE {})
                       /\ e.row[4] \in {Err, Panic, Cardinality(Present(E, B.hist[e.ver]))}
    [] e.e = "iter" -> IterFault(E, B.hist[e.ver], e)
    [] e.e = "excl" -> ExclOK(E, TM, B.hist[e.ver], B.roots[e.ver], e)
    [] e.e = "ics" -> IcsOK(E, B.hist[e.ver], e) /\ IcsSound(E, B.hist[e.ver], e)
    [] e.e = "range" -> RangeOK(E, TM, B.hist[e.ver], B.roots[e.ver], e)
    [] e.e = "compute" -> LET o == Outcome(E, B, e)
                          IN /\ ComputeRoots(E, TM, o, e)
                             /\ ComputeNodes(E, TM, B, o, e)
                             /\ ComputeStale(o, e)
                             /\ ValsOK(E, o, e)
                             /\ ComputeUpd(o, e)
    [] e.e = "resume" -> FALSE
Failed(e) == e.e # "root" /\ e.res < 0
Fault(E, TM, q, e) ==
  [s |-> q,
   b |-> Chk({"C21"}, "wrong answer after a storage failure", Failed(e.ev) \/ Inner(E, TM, q.S[e.s], e.ev))]
\* the same operation once storage works again
Again(E, TM, q, e) ==
  [s |-> q,
   b |-> Chk({"C21"}, "operation fails after storage works again",
             IF e.ev.e = "iter" THEN IterOK(E, q.S[e.s].hist[e.ev.ver], e.ev)
             ELSE ~Failed(e.ev) /\ Inner(E, TM, q.S[e.s], e.ev))]

-----------------------------------------------------------------------------
(* Restoration of version ver with the contents C on store e.s.            *)
(*   recv    the largest key received (0: none)                            *)
(*   clean   no chunk has been refused and no write has failed since the   *)
(*           restoration was started or resumed                            *)
(*   resumed it continues an interrupted one                               *)

RestTree(E, C, ver) == TLCEval([p \in Shape(E, C) |-> ver])
\* everything stored belongs to the tree being restored
Belongs(E, TM, R, nodes, vals) ==
  LET s == [C |-> R.C, T |-> RestTree(E, R.C, R.ver)]
      N == NodesOf(s.T)
      VH == Digests(nodes)
  IN /\ \A j \in 1..Len(nodes) :
          LET nd == nodes[j]
              p == <<nd[2], nd[3]>>
          IN Triple(nd) \in N /\ nd[4] = (LET c == Cardinality(KeysAt(E, R.C, p)) IN IF c = 0 THEN 0 ELSE IF c = 1 THEN 1 ELSE 2)
             /\ (nd[4] # 2 => Smt(E, TM, nd[6], KeysAt(E, R.C, p), R.C, 4 * nd[3]))
             /\ (nd[4] = 2 =>
                  \* its hash is right if those of its children are; children that are not stored are followed down
                  LET cps == ChildPaths(E, R.C, p)
                      ch == Set(nd[9])
                      of(q) == {c \in ch : c[1] = NibbleAt(E, q)}
                  IN /\ nd[5] = Cardinality(KeysAt(E, R.C, p))
                     /\ Len(nd[9]) = Cardinality(cps)
                     /\ \A q \in cps : Cardinality(of(q)) = 1
                     /\ \A q \in cps : \A c \in of(q) :
                          LET x == <<R.ver, q[1], q[2]>>
                              ks == KeysAt(E, R.C, q)
                          IN /\ c[4] = (IF Cardinality(ks) = 1 THEN 1 ELSE 0)
                             /\ IF x \in DOMAIN VH THEN VH[x] = c[2] ELSE Smt(E, TM, c[2], ks, R.C, 4 * q[2])
                     /\ Compose(TM, nd[6], ch, 0, 16))
     /\ \A j \in 1..Len(vals) : vals[j][1] = R.ver /\ vals[j][2] > 0 /\ R.C[vals[j][2]] = vals[j][3]
          /\ vals[j][3] # 0
Complete(E, TM, R, nodes, vals) ==
  LET s == [C |-> R.C, T |-> RestTree(E, R.C, R.ver)]
      VH == Digests(nodes)
  IN /\ {Triple(nodes[j]) : j \in 1..Len(nodes)} = NodesOf(s.T)
     /\ \A j \in 1..Len(nodes) : NodeOK(E, TM, s, nodes[j], VH)
     /\ {<<vals[j][2], vals[j][3]>> : j \in 1..Len(vals)} = {<<k, R.C[k]>> : k \in Present(E, R.C)}
MaxLeaf(nodes) == LET ks == {nodes[j][7] : j \in {j \in 1..Len(nodes) : nodes[j][4] = 1}}
                  IN IF ks = {} THEN 0 ELSE MaxSet(ks)
HasRoot(nodes) == \E j \in 1..Len(nodes) : nodes[j][3] = 0

RNew(E, TM, q, e) ==
  LET src == q.S[e.src]
      B == q.S[e.s]
      again == B.rest.on
      over == e.mode = "over"
      done == again /\ HasRoot(B.rest.stored) /\ ~over
      R == [on |-> TRUE, C |-> IF e.goal = "empty" THEN Empty(E) ELSE src.hist[e.of], ver |-> e.ver,
            root |-> IF e.goal = "empty" THEN 0 ELSE src.roots[e.of], good |-> e.goal # "none",
            recv |-> IF over \/ ~again THEN 0 ELSE MaxLeaf(B.rest.stored),
            done |-> done, clean |-> TRUE, once |-> ~over, resumed |-> again,
            stored |-> IF again THEN B.rest.stored ELSE <<>>,
            svals |-> IF again THEN B.rest.svals ELSE <<>>]
      PS == IF again THEN {"C16"} ELSE {"C15"}
  IN [s |-> [q EXCEPT !.S[e.s].rest = R],
      b |-> IF R.good THEN Chk(PS \cup {"C17"}, "starting a restoration", e.res = 0)
            ELSE Chk({"C17"}, "starting a restoration", e.res \in {0, Err})]

NextPairs(E, R, n) ==
  LET ks == SelectSeq(KeySeq(E, R.C), LAMBDA k : k > R.recv)
      m == MinOf(n, Len(ks))
  IN [j \in 1..m |-> <<ks[j], R.C[ks[j]]>>]
RPS(R) == IF R.resumed THEN {"C16"} ELSE {"C15"}

RChunk(E, TM, q, e) ==
  LET R == q.S[e.s].rest
      n == Len(e.pairs)
      pok == R.good /\ ~R.done /\ n > 0 /\ e.pairs = NextPairs(E, R, n)
      good == pok /\ [j \in 1..Len(e.sb) |-> e.sb[j][2]] = RightSibs(E, TM, R.root, e.pairs[n][1])
      R2 == [R EXCEPT !.recv = IF e.res = 0 /\ n > 0 THEN MaxOf(@, e.pairs[n][1]) ELSE @,
                      !.clean = @ /\ e.res = 0,
                      !.stored = e.nodes, !.svals = e.vals]
      own == RPS(R)
  IN [s |-> [q EXCEPT !.S[e.s].rest = R2],
      b |-> Chk(own, "a good chunk was refused", (R.clean /\ good /\ e.wf = "") => e.res = 0)
            \cup Chk({"C17"}, "a bad chunk was accepted", (R.clean /\ ~good) => e.res # 0)
            \cup Chk({"C17", "C16"}, "a failed write was not reported", e.wf # "" => e.res # 0)
            \cup Chk({"C17"}, "a chunk caused a crash", e.res \in {0, Err})
            \cup Chk({"C17"}, "a refused chunk changed the store",
                     (R.clean /\ ~good) => Set(e.nodes) = Set(R.stored) /\ Set(e.vals) = Set(R.svals))
            \cup Chk({"C17"} \cup own, "something stored does not belong to the tree",
                     IF R.good THEN Belongs(E, TM, R, e.nodes, e.vals) ELSE e.nodes = <<>> /\ e.vals = <<>>)
            \cup Chk({"C17"}, "a root appeared", HasRoot(e.nodes) => R.done)
            \cup Chk(own, "a stored node was written again", R.clean /\ R.once => e.over = 0)]

RFin(E, TM, q, e) ==
  LET B == q.S[e.s]
      R == B.rest
      full == R.good /\ (R.done \/ \A k \in Present(E, R.C) : k <= R.recv)
      own == RPS(R)
      ok == e.res = 0
      T == RestTree(E, R.C, R.ver)
      B2 == [B EXCEPT !.hist = (R.ver :> R.C) @@ @, !.tree = (R.ver :> T) @@ @, !.lat = R.ver,
                      !.nodes = @ \cup NodesOf(T), !.roots = (R.ver :> R.root) @@ @,
                      !.low = IF B.lat = NoLat THEN R.ver ELSE @,
                      !.leak = IF B.lat = NoLat THEN @
                               ELSE LET old == B.hist[B.lat]
                                    IN [k \in {k \in Keys(E) : R.C[k] = 0 /\ old[k] # 0} |-> old[k]],
                      !.vh = Digests(e.nodes) @@ @, !.ctx = @ \cup own,
                      !.rest = [R EXCEPT !.done = TRUE, !.stored = e.nodes, !.svals = e.vals]]
  IN [s |-> IF ok THEN [q EXCEPT !.S[e.s] = B2]
            ELSE [q EXCEPT !.S[e.s].rest.stored = e.nodes, !.S[e.s].rest.svals = e.vals, !.S[e.s].rest.clean = FALSE],
      b |-> Chk(own, "a complete restoration was refused", (R.clean /\ full /\ e.wf = "") => ok)
            \cup Chk({"C17"}, "an incomplete restoration was completed", (R.clean /\ ~full) => ~ok)
            \cup Chk({"C17"}, "an invalid restoration was completed", ~R.good => ~ok)
            \cup Chk({"C17"}, "finishing caused a crash", e.res \in {0, Err})
            \cup Chk(own, "a stored node was written again", R.clean /\ R.once => e.over = 0)
            \cup Chk({"C17"}, "a root appeared", HasRoot(e.nodes) => (ok \/ R.done \/ (full /\ e.wf # "")))
            \cup Chk({"C17"} \cup own, "the restored tree is not the original",
                     ok /\ R.good => Complete(E, TM, R, e.nodes, e.vals))
            \cup Chk({"C17"} \cup own, "something stored does not belong to the tree",
                     IF R.good THEN Belongs(E, TM, R, e.nodes, e.vals) ELSE e.nodes = <<>> /\ e.vals = <<>>)]

-----------------------------------------------------------------------------
(* Encodings, and the bundled in-memory store.                             *)

Enc(q, e) ==
  [s |-> q,
   b |-> Chk({"C23"}, "does not decode to an equal object", e.lost = 0)
         \cup Chk({"C23"}, "distinct objects share an encoding", e.distinct = e.codes)
         \cup Chk({"C23"}, "a decoded object behaves differently", e.differ = 0)]

Reopen(q, e) ==
  [s |-> [q EXCEPT !.S[e.s].ctx = @ \cup {"C23"}], b |-> Chk({"C23"}, "stored encodings do not decode", e.res = 0)]

\* M2 after an operation that is to be refused or not
MDo(q, e, refuse, M2) ==
  [s |-> IF refuse THEN [q EXCEPT !.stop = TRUE] ELSE [q EXCEPT !.M = M2],
   b |-> IF refuse THEN Chk({"C24"}, "the store accepted what it has to refuse", e.res # 0)
         ELSE Chk({"C24"}, "the store refused a valid operation", e.res = 0)]
MRes(q, e, r) == MDo(q, e, r.refuse, r.M)
MWrite(q, e) == MRes(q, e, SWrite(q.M, e.nodes, e.vals, e.stale))
MLeaf(q, e) == MRes(q, e, SLeaf(q.M, e.nk, e.node, e.k, e.ver, e.v))
MPrune(q, e) == MRes(q, e, SPrune(q.M, e.upto))
MPre(q, e) == MRes(q, e, SPreimage(q.M, e.k, e.w))

\* batches of nodes and values: two maps each; what comes later wins
NewBatch == [n |-> NoFun, v |-> NoFun]
AddAll(f, ps) == FoldLeft(LAMBDA g, p : (p[1] :> p[2]) @@ g, f, ps)
ValPairs(vs) == [j \in 1..Len(vs) |-> <<<<vs[j][1], vs[j][2]>>, vs[j][3]>>]
BOp(q, e) ==
  LET X == q.B[e.b]
      Y == CASE e.op \in {"node", "value", "extend"} -> [n |-> AddAll(X.n, e.nodes), v |-> AddAll(X.v, ValPairs(e.vals))]
             [] e.op = "merge" -> LET Z == q.B[3 - e.b] IN [n |-> Z.n @@ X.n, v |-> Z.v @@ X.v]
             [] e.op = "clear" -> NewBatch
             [] e.op = "new" -> [n |-> AddAll(NoFun, e.nodes), v |-> AddAll(NoFun, ValPairs(e.vals))]
      at(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
  IN [s |-> [q EXCEPT !.B[e.b] = Y],
      b |-> Chk({"C24"}, "what a batch holds",
                /\ e.op = "node" => e.old = at(X.n, e.nodes[1][1])
                /\ Len(e.has) = Cardinality(DOMAIN Y.n) /\ Set(e.has) = {<<x, Y.n[x]>> : x \in DOMAIN Y.n}
                /\ \A j \in 1..Len(e.got) : e.got[j][2] = at(Y.n, e.got[j][1])
                /\ Len(e.held) = Cardinality(DOMAIN Y.v) /\ Set(e.held) = {<<x[1], x[2], Y.v[x]>> : x \in DOMAIN Y.v}
                /\ e.empty = (Y = NewBatch))]

MRead(q, e) ==
  LET M == q.M
      lv == {x \in DOMAIN M.nodes : M.nodes[x][2] > 0}
      top == MaxSet({M.nodes[x][2] : x \in lv})
  IN [s |-> q,
      b |-> Chk({"C24"}, "nodes held by the store",
                Set(e.nodes) = {<<x, M.nodes[x][1]>> : x \in DOMAIN M.nodes} /\ e.num = Cardinality(DOMAIN M.nodes))
            \cup Chk({"C24"}, "values held by the store", \A j \in 1..Len(e.vals) : LET w == ValAt(M, e.vals[j][1], e.vals[j][2])
                                                                                    IN e.vals[j][3] = w /\ e.vals[j][4] = (IF w = 0 THEN Err ELSE w))
            \cup Chk({"C24"}, "preimages held by the store",
                     \A j \in 1..Len(e.pre) : e.pre[j][2] = IF e.pre[j][1] \in DOMAIN M.pre THEN M.pre[e.pre[j][1]] ELSE 0)
            \cup Chk({"C24"}, "rightmost leaf",
                     IF lv = {} THEN e.right = <<>>
                     ELSE e.right # <<>> /\ e.right[1] \in lv /\ M.nodes[e.right[1]][2] = top /\ e.right[2] = top)]

-----------------------------------------------------------------------------
(* The tree over another hash function: the contents of a version, written *)
(* in two commits, read, and restored.  Digests are numbered by the terms  *)
(* that they are the images of.                                            *)
Hasher(q, e) ==
  LET B == q.S[e.s]
      c == B.hist[e.ver]
  IN [s |-> q,
      b |-> Chk({"C02"}, "root hash under another hash function", e.root = B.roots[e.ver])
            \cup Chk({"C07"}, "update proof under another hash function", e.upd = <<0, 0>>)
            \cup Chk({"C03"}, "proofs under another hash function",
                     \A j \in 1..Len(e.reads) : LET r == e.reads[j] IN r[2] = c[r[1]] /\ r[3] = <<c[r[1]]>>)
            \cup Chk({"C15", "C02"}, "restored under another hash function", e.rest = B.roots[e.ver])]

-----------------------------------------------------------------------------
(* A very large tree: keys 1..n in their order, of which a few are removed *)
(* by a second commit.  The contents are known without being written out.  *)
HugeAt(e, j) ==        \* the key of index j after the removals
  LET D == Set(e.gone)
  IN CHOOSE r \in (j + 1)..(j + 1 + Len(e.gone)) : r \notin D /\ r - Cardinality({d \in D : d < r}) = j + 1
HugeFrom(e, j, max) == LET left == e.n - Len(e.gone)
                       IN [z \in 1..MaxSet({0, IF left - j < max THEN left - j ELSE max}) |-> HugeAt(e, j + z - 1)]
Huge(q, e) ==
  LET D == Set(e.gone)
      left == e.n - Len(e.gone)
      below(k) == (k - 1) - Cardinality({d \in D : d < k})
  IN [s |-> q,
      b |-> IF e.res # 0 THEN Chk({"C01", "C13"}, "writing a very large tree", FALSE)
            ELSE Chk({"C13"}, "counts of a very large tree", e.cnt = <<e.n, left>>)
            \cup Chk({"C10"}, "count of a very large tree after pruning", e.after = left)
            \cup Chk({"C13"}, "statistics of a very large tree",
                     \A j \in 1..2 : LET s == e.stats[j] IN
                       /\ Len(s) = 7 /\ s[1] = s[5] /\ s[2] = s[6] /\ s[3] = s[7]
                       /\ j = 1 => s[2] = e.n /\ s[3] = 0 /\ s[4] = 0
                       /\ j = 2 => s[4] - s[2] = Len(e.gone))
            \cup Chk({"C13"}, "a very large tree by index", \A j \in 1..Len(e.idx) : e.idx[j][2] = HugeFrom(e, e.idx[j][1], 3))
            \cup Chk({"C12"}, "iterating over a very large tree",
                     /\ \A j \in 1..Len(e.from) : e.from[j][2] = HugeFrom(e, below(e.from[j][1]), 3)
                     /\ e.all[1] = left /\ e.all[2] = left /\ \A j \in 1..Len(e.all[3]) : e.all[3][j][2] = HugeAt(e, e.all[3][j][1]))
            \cup Chk({"C15"}, "restoring a very large tree", e.rest[1] = e.root[2] /\ e.rest[2] = left)
            \cup Chk({"C11", "C15"}, "nodes of a very large tree", e.held = e.rest[3])
            \cup Chk({"C23"}, "encodings of a very large tree", e.enc = <<1, 1>>)
            \cup Chk({"C01", "C10"}, "reads of a very large tree",
                     \A j \in 1..Len(e.reads) : LET r == e.reads[j] IN r[2] = IF r[1] \in D THEN 0 ELSE r[1])]

-----------------------------------------------------------------------------
(* Readers in other threads while versions are written to (and pruned from) *)
(* the bundled store: whoever sees the root of a version sees all of it.    *)
(* Version 0 has all the keys 1..n, version w overwrites and removes some;  *)
(* the values are one more than the version that wrote them.                *)
MtDel(k, w) == w % 2 = 1 /\ k % 5 = w % 5
MtPut(k, w) == ~MtDel(k, w) /\ (w = 0 \/ (k + w) % 3 = 0)
MtAt(k, v) == LET w == MaxSet({w \in 0..v : MtDel(k, w) \/ MtPut(k, w)}) IN IF MtDel(k, w) THEN 0 ELSE w + 1
RECURSIVE MtSum(_, _)
MtSum(v, k) == IF k = 0 THEN 0 ELSE MtAt(k, v) + MtSum(v, k - 1)
Mt(q, e) ==
  LET full == [v \in {e.its[j][1] : j \in 1..Len(e.its)} |-> <<Cardinality({k \in 1..e.n : MtAt(k, v) # 0}), MtSum(v, e.n)>>]
  IN [s |-> q,
      b |-> Chk({"C22", "C24"}, "committing while others read", \A j \in 1..Len(e.res) : e.res[j] = 0)
       \cup Chk({"C22", "C24"}, "reads in another thread",
                \A j \in 1..Len(e.at) : LET a == e.at[j] want == MtAt(a[3], a[1])
                                         IN a[2] = a[1] /\ a[4] = want /\ a[5] = want /\ a[6] = 1)
       \cup Chk({"C22", "C24"}, "iteration in another thread",
                \A j \in 1..Len(e.its) : LET y == e.its[j] IN y[4] = 0 /\ <<y[2], y[3]>> = full[y[1]])]

-----------------------------------------------------------------------------
Step(E, TM, q, e) ==
  CASE e.e = "open" -> [s |-> [q EXCEPT !.S = Append(@, [NewStore EXCEPT !.ctx = IF e.enc THEN {"C23"} ELSE {}])], b |-> {}]
    [] e.e = "fork" -> [s |-> [q EXCEPT !.S = Append(@, [q.S[e.s] EXCEPT !.ctx = @ \cup {"C22"}])], b |-> {}]
    [] e.e = "close" -> [s |-> [q EXCEPT !.S[e.s] = NewStore,
                                        !.P = [p \in {p \in DOMAIN q.P : q.P[p].s # e.s} |-> q.P[p]]], b |-> {}]
    [] e.e = "reopen" -> Reopen(q, e)
    [] e.e = "compute" -> Compute(E, TM, q, e)
    [] e.e = "store" -> Store(E, q, e)
    [] e.e = "prune" -> Prune(E, q, e)
    [] e.e = "dump" -> Dump(E, TM, q, e)
    [] e.e = "reads" -> Reads(E, TM, q, e)
    [] e.e = "roots" -> Roots(E, q, e)
    [] e.e = "iter" -> Iter(E, q, e)
    [] e.e = "inew" -> INew(E, q, e)
    [] e.e = "inext" -> INext(E, q, e)
    [] e.e = "excl" -> Excl(E, TM, q, e)
    [] e.e = "ics" -> Ics(E, q, e)
    [] e.e = "range" -> RangeEv(E, TM, q, e)
    [] e.e = "forged" -> Forged(E, q, e)
    [] e.e = "uforged" -> UForged(E, TM, q, e)
    [] e.e = "rforged" -> RForged(E, q, e)
    [] e.e = "agree" -> Agree(E, TM, q, e)
    [] e.e = "flt" -> Fault(E, TM, q, e)
    [] e.e = "again" -> Again(E, TM, q, e)
    [] e.e = "rnew" -> RNew(E, TM, q, e)
    [] e.e = "rchunk" -> RChunk(E, TM, q, e)
    [] e.e = "rfin" -> RFin(E, TM, q, e)
    [] e.e = "enc" -> Enc(q, e)
    [] e.e = "hasher" -> Hasher(q, e)
    [] e.e = "huge" -> Huge(q, e)
    [] e.e = "mt" -> Mt(q, e)
    [] e.e = "icsforged" -> IcsForged(q, e)
    [] e.e = "mopen" -> [s |-> [q EXCEPT !.M = MNew(e.over)], b |-> {}]
    [] e.e = "mpre" -> MPre(q, e)
    [] e.e = "bnew" -> [s |-> [q EXCEPT !.B = <<NewBatch, NewBatch>>], b |-> {}]
    [] e.e = "bop" -> BOp(q, e)
    [] e.e = "mwrite" -> MWrite(q, e)
    [] e.e = "mleaf" -> MLeaf(q, e)
    [] e.e = "mprune" -> MPrune(q, e)
    [] e.e = "mread" -> MRead(q, e)
    [] e.e = "garbled" -> [s |-> q, b |-> Chk(All, "the outcome cannot be decoded", FALSE)]
    [] e.e = "crash" -> [s |-> q, b |-> Chk(All, "an operation crashed", FALSE)]
    [] e.e = "hang" -> [s |-> q, b |-> Chk(All, "an operation did not come back", FALSE)]

NoEnv == [n |-> 0]
Init == tr \in 1..NT /\ env = NoEnv /\ i = 0 /\ st = InitSt /\ bad = {}
\* first the key universe of the trace is worked out, then its events follow
Start0 ==
  /\ env = NoEnv
  /\ env' = TLCEval(MakeEnv(4, 256, Traces[tr].nib))
  /\ UNCHANGED <<tr, i, st, bad>>
Event ==
  /\ env # NoEnv
  /\ i < Len(Traces[tr].ev)
  /\ ~st.stop
  /\ bad = {}
  /\ LET r == TLCEval(Step(env, Traces[tr].terms, st, Traces[tr].ev[i + 1]))
     IN st' = r.s /\ bad' = r.b
  /\ i' = i + 1
  /\ UNCHANGED <<tr, env>>
Next == Start0 \/ Event
Spec == Init /\ [][Next]_vars

Accepted == bad = {}
View == <<tr, i, env = NoEnv>>
Show == [trace |-> tr, event |-> i, failed |-> bad]
=============================================================================

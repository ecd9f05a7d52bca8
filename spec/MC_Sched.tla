------------------------------ MODULE MC_Sched ------------------------------
(***************************************************************************)
(* Schedules of a restoration, to be replayed into the code: every way of  *)
(* cutting the pairs into chunks, with interruptions anywhere: a crash     *)
(* between steps, a write that fails before or after it took effect, and   *)
(* (with Bad) chunks that do not belong, and completion before the end.    *)
(* After an interruption the restoration is started anew, and sends what   *)
(* the store says is missing, at most as much as everything.               *)
(*                                                                         *)
(* Each schedule that ends in a completion is written out:                 *)
(*   <<"c", n, w>> a chunk of n pairs, <<"f", 0, w>> completion, w being   *)
(*   "" or how the write fails ("b" before, "a" after), <<"x", 0, "">> a   *)
(*   crash, <<"bad", x, "">> a bad chunk, x = 1 if a fresh start follows.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxPairs, MaxCuts, Bad

VARIABLES n, left, cuts, hist, over
vars == <<n, left, cuts, hist, over>>

Init == n \in 1..MaxPairs /\ left = n /\ cuts = 0 /\ hist = <<>> /\ over = FALSE

Go(x) == hist' = Append(hist, x) /\ n' = n
Cut == cuts < MaxCuts /\ cuts' = cuts + 1

Chunk == \E k \in 1..left : Go(<<"c", k, "">>) /\ left' = left - k /\ UNCHANGED <<cuts, over>>
CutChunk == Cut /\ \E k \in 1..left, w \in {"a", "b"} : Go(<<"c", k, w>>) /\ left' = n /\ over' = over
Crash == Cut /\ hist # <<>> /\ hist[Len(hist)] \notin {<<"x", 0, "">>} /\ hist[Len(hist)][3] = ""
         /\ Go(<<"x", 0, "">>) /\ left' = n /\ over' = over
Finish == left = 0 /\ Go(<<"f", 0, "">>) /\ over' = TRUE /\ left' = 0 /\ UNCHANGED cuts
CutFinish == left = 0 /\ Cut /\ \E w \in {"a", "b"} : Go(<<"f", 0, w>>) /\ left' = n /\ over' = over
\* completed, and started once more
Again == Cut /\ left = 0 /\ Go(<<"f", 0, "", "early">>) /\ left' = n /\ over' = over
Early == Bad /\ Cut /\ left > 0 /\ Go(<<"f", 0, "", "early">>) /\ left' = n /\ over' = over
BadChunk == Bad /\ Cut /\ \E x \in 0..1 : Go(<<"bad", x, "">>) /\ left' = (IF x = 1 THEN n ELSE left) /\ over' = over

Next == ~over /\ (Chunk \/ CutChunk \/ Crash \/ Finish \/ CutFinish \/ Again \/ Early \/ BadChunk)
Spec == Init /\ [][Next]_vars
Emit == over => PrintT(ToJson([n |-> n, sched |-> hist]))
=============================================================================

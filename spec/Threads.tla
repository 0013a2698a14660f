------------------------------- MODULE Threads -------------------------------
(* Two calls in two threads, and the ways a scheduler can interleave them with     *)
(* at most MaxSwitch preemptions.  A call is a run of numbered points (the first      *)
(* visits of the source lines of the library it executes, and its key                  *)
(* derivations, as a profiling run of the real code counted them); nothing is said       *)
(* about what happens at them: the claim (C19) is that the outcomes do not depend on      *)
(* the schedule, whatever the calls do.                                                     *)
(*                                                                                           *)
(* IOEnv.POINTS: one pair per line, [id, n: <<points of the one, points of the other>>].      *)
(* Every complete behaviour with a preemption is printed as the schedule that reproduces        *)
(* it: who starts, and at which points the running call is put aside.                             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS MaxSwitch,     \* preemptions (the hand-over when a call ends is none)
          Stride         \* the second preemption is made at every Stride-th point only
Pairs == ndJsonDeserialize(IOEnv.POINTS)
VARIABLES pair, first, pc, on, at
vars == <<pair, first, pc, on, at>>
N(i) == Pairs[pair].n[i]
Other(i) == 3 - i
Done(i) == pc[i] = N(i)
Init == /\ pair \in 1..Len(Pairs) /\ first \in {1, 2} /\ on = first
        /\ pc = <<0, 0>> /\ at = <<>>
Open(i) == ~Done(i)
\* the running call gets as far as its point k; there it is put aside
Preempt(k) == /\ Len(at) < MaxSwitch /\ k > pc[on] /\ k < N(on) /\ Open(Other(on))
              /\ (IF at = <<>> THEN TRUE ELSE k % Stride = (at[1] + pair) % Stride)
              /\ pc' = [pc EXCEPT ![on] = k] /\ at' = Append(at, k) /\ on' = Other(on)
              /\ UNCHANGED <<pair, first>>
\* the running call ends
End == /\ Open(on)
       /\ pc' = [pc EXCEPT ![on] = N(on)] /\ on' = Other(on) /\ UNCHANGED <<pair, first, at>>
Finished == Done(1) /\ Done(2)
Next == End \/ \E k \in 1..(N(on) - 1) : Preempt(k)
Spec == Init /\ [][Next]_vars
Says == Finished /\ at # <<>> => PrintT("S " \o ToString(Pairs[pair].id) \o " " \o ToString(first) \o " " \o ToString(at[1]) \o " " \o ToString(IF Len(at) > 1 THEN at[2] ELSE 0))
(* One call runs at a time, and both come to an end.                               *)
Sane == /\ Len(at) <= MaxSwitch /\ \A i \in {1, 2} : pc[i] <= N(i)
        /\ (Finished \/ ENABLED Next)
=============================================================================

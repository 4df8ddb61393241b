------------------------------- MODULE Guard -------------------------------
(***************************************************************************)
(* The guard protocol of the implementation, one action per operation on   *)
(* the two shared deques (each of them atomic in CPython).                 *)
(*                                                                         *)
(*   queue      the line                                                   *)
(*   obs        left end: one entry per running shared guard; right end:   *)
(*              one entry per exclusive guard that has arrived             *)
(*                                                                         *)
(* It is checked to refine GuardContract (mutual exclusion, line order,    *)
(* cancellation) and, with fairness, to serve everybody.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Procs, Targets, Cancels   \* Cancels: how many cancellations

VARIABLES kind, target, pc, queue, obs, ahead, doomed

vars == <<kind, target, pc, queue, obs, ahead, doomed>>

PC == {"out", "use", "told", "line", "head", "shown", "open", "left", "done",
       "quit"}

InLine == {"line", "head", "shown"}   \* the guard stands in the queue

Phase(p) == CASE pc[p] = "out" -> "out"
              [] pc[p] \in {"use", "told"} -> "arriving"
              [] pc[p] \in InLine -> "waiting"
              [] pc[p] = "open" -> "open"
              [] pc[p] \in {"left", "done"} -> "closed"
              [] pc[p] = "quit" -> IF doomed[p] THEN "closed" ELSE "waiting"

C == INSTANCE GuardContract WITH phase <- [p \in Procs |-> Phase(p)]

Init ==
  /\ kind \in [Procs -> {"X", "N"}]
  /\ target \in [Procs -> Targets]
  /\ pc = [p \in Procs |-> "out"]
  /\ queue = [t \in Targets |-> <<>>]
  /\ obs = [t \in Targets |-> <<>>]
  /\ ahead = [p \in Procs |-> {}]
  /\ doomed = [p \in Procs |-> FALSE]

Q(p) == queue[target[p]]
O(p) == obs[target[p]]
SetQ(p, s) == queue' = [queue EXCEPT ![target[p]] = s]
SetO(p, s) == obs' = [obs EXCEPT ![target[p]] = s]
Go(p, l) == pc' = [pc EXCEPT ![p] = l]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Without(s, p) == SelectSeq(s, LAMBDA x : x # p)

Start(p) ==
  /\ pc[p] = "out"
  /\ Go(p, "use")
  /\ ahead' = [ahead EXCEPT ![p] =
        {q \in Procs \ {p} : target[q] = target[p] /\ pc[q] \in InLine}]
  /\ UNCHANGED <<kind, target, queue, obs, doomed>>

Announce(p) ==          \* exclusive guards announce themselves on the right
  /\ pc[p] = "use"
  /\ Go(p, "told")
  /\ IF kind[p] = "X" THEN SetO(p, Append(O(p), p)) ELSE UNCHANGED obs
  /\ UNCHANGED <<kind, target, queue, ahead, doomed>>

Enqueue(p) ==
  /\ pc[p] = "told"
  /\ Go(p, "line")
  /\ SetQ(p, Append(Q(p), p))
  /\ UNCHANGED <<kind, target, obs, ahead, doomed>>

(* exclusive: first look at the line, then at the observers *)
LookLine(p) ==
  /\ kind[p] = "X" /\ pc[p] = "line"
  /\ Q(p)[1] = p
  /\ Go(p, "head")
  /\ UNCHANGED <<kind, target, queue, obs, ahead, doomed>>

LookObs(p) ==
  /\ pc[p] = "head"
  /\ IF kind[O(p)[1]] = "X" THEN Go(p, "open") ELSE Go(p, "line")
  /\ UNCHANGED <<kind, target, queue, obs, ahead, doomed>>

(* shared: show yourself first, then leave the line *)
Show(p) ==
  /\ kind[p] = "N" /\ pc[p] = "line"
  /\ Q(p)[1] = p
  /\ Go(p, "shown")
  /\ SetO(p, <<p>> \o O(p))
  /\ UNCHANGED <<kind, target, queue, ahead, doomed>>

StepOut(p) ==
  /\ pc[p] = "shown"
  /\ Assert(Q(p)[1] = p, "incoherent line")
  /\ Go(p, "open")
  /\ SetQ(p, Tail(Q(p)))
  /\ UNCHANGED <<kind, target, obs, ahead, doomed>>

LeaveObs(p) ==
  /\ pc[p] = "open"
  /\ Go(p, "left")
  /\ SetO(p, IF kind[p] = "X" THEN Pop(O(p)) ELSE Tail(O(p)))
  /\ UNCHANGED <<kind, target, queue, ahead, doomed>>

LeaveLine(p) ==
  /\ pc[p] = "left"
  /\ Go(p, "done")
  /\ IF kind[p] = "X"
     THEN /\ Assert(Q(p)[1] = p, "incoherent line")
          /\ SetQ(p, Tail(Q(p)))
     ELSE UNCHANGED queue
  /\ UNCHANGED <<kind, target, obs, ahead, doomed>>

(* A waiting task is cancelled: it takes itself out of the line first and, *)
(* if exclusive, withdraws one announcement.                               *)
Cancel(p) ==
  /\ pc[p] = "line" /\ ~doomed[p]
  /\ Cardinality({q \in Procs : doomed[q]}) < Cancels
  /\ doomed' = [doomed EXCEPT ![p] = TRUE]
  /\ UNCHANGED <<kind, target, pc, queue, obs, ahead>>

QuitLine(p) ==
  /\ pc[p] = "line" /\ doomed[p]
  /\ Go(p, "quit")
  /\ SetQ(p, Without(Q(p), p))
  /\ UNCHANGED <<kind, target, obs, ahead, doomed>>

QuitObs(p) ==
  /\ pc[p] = "quit"
  /\ Go(p, "done")
  /\ IF kind[p] = "X" THEN SetO(p, Pop(O(p))) ELSE UNCHANGED obs
  /\ UNCHANGED <<kind, target, queue, ahead, doomed>>

Enter(p) == ~doomed[p] /\ (LookLine(p) \/ LookObs(p) \/ Show(p) \/ StepOut(p))

Step(p) == \/ Start(p) \/ Announce(p) \/ Enqueue(p) \/ Enter(p)
           \/ LeaveObs(p) \/ LeaveLine(p) \/ QuitLine(p) \/ QuitObs(p)

Next == \E p \in Procs : Step(p) \/ Cancel(p)

Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

(* ------------------------------------------------------------ properties *)
Mutex == C!Mutex

(* the deques only ever hold what the protocol says *)
Coherent ==
  /\ \A t \in Targets :
       Cardinality({p \in Procs : target[p] = t /\ kind[p] = "X"
                     /\ pc[p] \in {"told", "line", "head", "open", "quit"}})
         = Cardinality({i \in 1..Len(obs[t]) : kind[obs[t][i]] = "X"})
  /\ \A t \in Targets : \A i, j \in 1..Len(obs[t]) :
       (kind[obs[t][i]] = "X" /\ kind[obs[t][j]] = "N") => j < i

Idle == (\A p \in Procs : pc[p] \in {"out", "done"}) =>
          \A t \in Targets : queue[t] = <<>> /\ obs[t] = <<>>

(* every step of the protocol is a step of the contract or invisible *)
Refines == [][C!CNext]_(C!cvars)

Served == \A p \in Procs : []<>(pc[p] = "done")
Progress == <>(\A p \in Procs : pc[p] = "done")
=============================================================================

--------------------------- MODULE GuardContract ---------------------------
(***************************************************************************)
(* What users of concurrency guards can rely on, in terms of what they can *)
(* observe: a context arrives, is seen waiting, opens, closes, or gives up *)
(* (cancelled or refused).  Contexts on different targets do not interact. *)
(*                                                                         *)
(*   kind[p]    "X" exclusive context, "N" shared (non-exclusive) context  *)
(*   target[p]  what p guards                                              *)
(*   phase[p]   "out" | "arriving" | "waiting" | "open" | "closed"         *)
(*   ahead[p]   contexts that were already waiting in line on p's target   *)
(*              when p arrived                                             *)
(*   doomed[p]  p has been cancelled before it opened                      *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

VARIABLES kind, target, phase, ahead, doomed

cvars == <<kind, target, phase, ahead, doomed>>

Ctx == DOMAIN phase

Same(p)    == {q \in Ctx \ {p} : target[q] = target[p]}
Open(p)    == {q \in Same(p) : phase[q] = "open"}
Waiting(p) == {q \in Same(p) : phase[q] = "waiting"}
Both(p, q) == kind[p] = "N" /\ kind[q] = "N"

(* The three clauses of opening a context. *)
ExclusiveOk(p) == /\ \A q \in Open(p) : kind[q] # "X"
                  /\ kind[p] = "X" => Open(p) = {}
OrderOk(p)     == \A q \in ahead[p] : phase[q] = "waiting" => Both(p, q)
NotDoomed(p)   == ~doomed[p]

Arrive(p) ==
  /\ phase[p] = "out"
  /\ phase' = [phase EXCEPT ![p] = "arriving"]
  /\ ahead' = [ahead EXCEPT ![p] = Waiting(p)]
  /\ UNCHANGED <<kind, target, doomed>>

Wait(p) ==
  /\ phase[p] = "arriving"
  /\ phase' = [phase EXCEPT ![p] = "waiting"]
  /\ UNCHANGED <<kind, target, ahead, doomed>>

OpenCtx(p) ==
  /\ phase[p] \in {"arriving", "waiting"}
  /\ ExclusiveOk(p)
  /\ OrderOk(p)
  /\ NotDoomed(p)
  /\ phase' = [phase EXCEPT ![p] = "open"]
  /\ UNCHANGED <<kind, target, ahead, doomed>>

Close(p) ==
  /\ phase[p] = "open"
  /\ phase' = [phase EXCEPT ![p] = "closed"]
  /\ UNCHANGED <<kind, target, ahead, doomed>>

Cancel(p) ==
  /\ phase[p] \in {"arriving", "waiting"}
  /\ doomed' = [doomed EXCEPT ![p] = TRUE]
  /\ UNCHANGED <<kind, target, phase, ahead>>

GiveUp(p) ==
  /\ phase[p] \in {"arriving", "waiting"}
  /\ doomed[p]
  /\ phase' = [phase EXCEPT ![p] = "closed"]
  /\ UNCHANGED <<kind, target, ahead, doomed>>

(* Nothing moves although everybody had ample opportunity: allowed only if *)
(* each waiting context has a context in its way.                          *)
Blocked(q) ==
  \/ \E r \in Open(q) : kind[r] = "X" \/ kind[q] = "X"
  \/ \E x \in Waiting(q) : kind[x] = "X" /\ q \notin ahead[x] /\ Open(q) # {}
StallOk == \A q \in Ctx : phase[q] = "waiting" => Blocked(q)

CInit(procs, targets) ==
  /\ kind \in [procs -> {"X", "N"}]
  /\ target \in [procs -> targets]
  /\ phase = [p \in procs |-> "out"]
  /\ ahead = [p \in procs |-> {}]
  /\ doomed = [p \in procs |-> FALSE]

CNext == \E p \in Ctx :
  Arrive(p) \/ Wait(p) \/ OpenCtx(p) \/ Close(p) \/ Cancel(p) \/ GiveUp(p)

(* The property the contract exists for. *)
Mutex == \A p, q \in Ctx :
  (p # q /\ target[p] = target[q] /\ phase[p] = "open" /\ phase[q] = "open")
     => Both(p, q)
=============================================================================

---------------------------- MODULE GuardTrace ----------------------------
(***************************************************************************)
(* Judges recorded executions of the real guards by GuardContract.  Each   *)
(* trace is [kinds, targets, events] with events [e, p].  Total: an event  *)
(* the contract does not allow sets `verdict` to the broken clause.        *)
(***************************************************************************)
EXTENDS GuardContract, Sequences, Json, IOUtils, TLC

VARIABLES tid, i, verdict

Traces == JsonDeserialize(IOEnv.TRACES)

T  == Traces[tid]
Ev == T.events[i]

Init ==
  /\ tid \in 1..Len(Traces)
  /\ i = 1
  /\ verdict = "ok"
  /\ kind = Traces[tid].kinds
  /\ target = Traces[tid].targets
  /\ phase = [p \in DOMAIN kind |-> "out"]
  /\ ahead = [p \in DOMAIN kind |-> {}]
  /\ doomed = [p \in DOMAIN kind |-> FALSE]

Fail(clause) == verdict' = clause /\ UNCHANGED cvars
Good(action) == action /\ verdict' = "ok"

Judge(e, p) ==
  CASE e = "arrive" -> IF phase[p] = "out" THEN Good(Arrive(p))
                       ELSE Fail("harness: arrive")
    [] e = "wait" -> IF phase[p] = "arriving" THEN Good(Wait(p))
                     ELSE Fail("harness: wait")
    [] e = "open" -> IF ~(phase[p] \in {"arriving", "waiting"})
                     THEN Fail("a context opened more than once")
                     ELSE IF ~ExclusiveOk(p) THEN Fail("mutual exclusion")
                     ELSE IF ~OrderOk(p) THEN Fail("line order")
                     ELSE IF ~NotDoomed(p) THEN Fail("a cancelled context opened")
                     ELSE Good(OpenCtx(p))
    [] e = "close" -> IF phase[p] = "open" THEN Good(Close(p))
                      ELSE Fail("harness: close")
    [] e = "cancel" -> IF phase[p] \in {"arriving", "waiting"}
                       THEN Good(Cancel(p)) ELSE Good(UNCHANGED cvars)
    [] e = "giveup" -> IF phase[p] \in {"arriving", "waiting"} /\ doomed[p]
                       THEN Good(GiveUp(p))
                       ELSE Fail("a context gave up without being cancelled")
    [] e = "stall" -> IF StallOk THEN Good(UNCHANGED cvars)
                      ELSE Fail("a context is held up by nobody")
    [] e = "end" -> IF \A q \in Ctx : phase[q] \in {"closed", "out"}
                    THEN Good(UNCHANGED cvars)
                    ELSE Fail("a context never got its turn")
    [] e = "error" -> Fail("an unexpected error left a context")
    [] e = "swallowed" -> Fail("an exception of the body was altered")
    [] e = "reused" -> Fail("a used guard opened again")
    [] e = "leak" -> Fail("a target was kept although idle")
    [] e = "lost" -> Fail("a target in use was forgotten")
    [] e = "refused" -> Good(UNCHANGED cvars)

Next ==
  /\ verdict = "ok"
  /\ i <= Len(T.events)
  /\ i' = i + 1
  /\ UNCHANGED tid
  /\ Judge(Ev[1], Ev[2])

Spec == Init /\ [][Next]_<<cvars, tid, i, verdict>>

Accepted == verdict = "ok"
=============================================================================

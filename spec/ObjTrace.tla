------------------------------ MODULE ObjTrace ------------------------------
(***************************************************************************)
(* Trace validation: is what load_obj answered a behaviour of Obj?         *)
(*                                                                         *)
(* A trace is a sequence of steps.  Step k has the characters that step    *)
(* adds to the text (t) and what load_obj answered to the text so far      *)
(* (got; absent if it was not asked).  The machine reads the step's         *)
(* statements; the trace goes on only if the answer is the one the machine  *)
(* allows.  A statement may be continued by the next step, so the last one  *)
(* is kept pending.                                                        *)
(***************************************************************************)
EXTENDS ObjProps, TLC, Json, IOUtils
CONSTANTS Fields,
          Total   \* TRUE: any answer will do, as long as there is one (C01)

(* One trace per line of the file; numbers are bit patterns, and the file   *)
(* LITERALS says which literal stands for which.                           *)
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACES))
ASSUME TLCSet(2, JsonDeserialize(IOEnv.LITERALS))
Traces == TLCGet(1)
BitsOf(x) == TLCGet(2)[x]

VARIABLES tr,     \* which trace
          k,      \* steps read
          m,      \* the machine, up to the pending statement
          pend,   \* tokens of the last statement
          bad,    \* a bad statement was read
          hist,   \* the statements m has read
          verdict
vars == <<tr, k, m, pend, bad, hist, verdict>>

Steps == Traces[tr].steps
Init == /\ tr \in DOMAIN Traces
        /\ k = 0 /\ m = Model0 /\ pend = <<>> /\ bad = FALSE /\ hist = <<>>
        /\ verdict = "open"

Answer(m0, p0, b0) ==
  LET s == IF p0 = <<>> THEN Bad ELSE ChunkMeaning(p0)
  IN  IF b0 \/ (p0 # <<>> /\ s = Bad) THEN Refused
      ELSE IF p0 = <<>> THEN View(m0, Fields) ELSE View(Apply(m0, s), Fields)
Allowed(step, answer) ==
  IF "got" \notin DOMAIN step THEN TRUE
  ELSE IF "same" \in DOMAIN step /\ ~ Total /\ (IF "same" \in DOMAIN step THEN step.same # step.got ELSE FALSE) THEN FALSE
  ELSE IF Total THEN IF step.got.ok THEN TRUE ELSE step.got.why # "panic"
  ELSE IF step.got.ok THEN answer = step.got
  ELSE answer = Refused /\ step.got.why = answer.why

(* Everything new is computed before the primes: TLC does not remember the *)
(* value of a definition it evaluates under a prime.                       *)
Step ==
  /\ verdict = "open" /\ k < Len(Steps)
  /\ LET step  == Steps[k + 1]
         cs    == Chunks(pend \o Lex(step.t))
         done  == IF cs = <<>> THEN <<>> ELSE [i \in 1..(Len(cs) - 1) |-> ChunkMeaning(cs[i])]
         pend2 == IF cs = <<>> THEN <<>> ELSE cs[Len(cs)]
         bad2  == bad \/ AnyBad(done)
         m2    == IF bad2 THEN m ELSE After(m, done)
     IN  /\ k' = k + 1 /\ pend' = pend2 /\ bad' = bad2 /\ m' = m2
         /\ hist' = IF bad2 THEN hist ELSE hist \o done
         /\ verdict' = IF ~ Allowed(step, Answer(m2, pend2, bad2)) THEN "rejected"
                       ELSE IF k + 1 = Len(Steps) THEN "accepted" ELSE "open"
  /\ UNCHANGED tr
Spec == Init /\ [][Step]_vars

(* The properties hold along the trace (on the shorter ones: they are slow). *)
Properties == Len(hist) <= 12 => Good(hist, m)
Told == verdict # "open" =>
          PrintT(ToJson([trace |-> tr, step |-> k, verdict |-> verdict,
                         want |-> IF verdict = "rejected" THEN Answer(m, pend, bad) ELSE <<>>]))
Where0 == <<tr, k, verdict>>
=============================================================================

------------------------------ MODULE MtlTrace ------------------------------
(* Trace validation for load_mtl: see ObjTrace. *)
EXTENDS MtlProps, TLC, Json, IOUtils
CONSTANTS Parts,
          Total   \* TRUE: any answer will do, as long as there is one (C01)

ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACES))
ASSUME TLCSet(2, JsonDeserialize(IOEnv.LITERALS))
Traces == TLCGet(1)
BitsOf(x) == TLCGet(2)[x]

VARIABLES tr, k, ms, pend, bad,
          headless,   \* the first statement was not a newmtl
          hist, verdict
vars == <<tr, k, ms, pend, bad, headless, hist, verdict>>

Steps == Traces[tr].steps
Init == /\ tr \in DOMAIN Traces
        /\ k = 0 /\ ms = <<>> /\ pend = <<>> /\ bad = FALSE /\ headless = FALSE /\ hist = <<>>
        /\ verdict = "open"

(* What is answered to the statements ss (at most one) after a state.      *)
Headless(ss, h0, hl0) == IF h0 = <<>> /\ ss # <<>> THEN ss[1].k # "newmtl" ELSE hl0
Answer(m0, p0, b0, h0, hl0) ==
  LET ss == IF p0 = <<>> THEN <<>> ELSE <<ChunkMeaning(p0)>>
  IN  IF b0 \/ AnyBad(ss) \/ (h0 = <<>> /\ ss = <<>>)
      THEN IF h0 = <<>> \/ hl0 THEN EitherWay ELSE Refused
      ELSE IF Headless(ss, h0, hl0) THEN NotNewMtl
      ELSE View(After(m0, ss), Parts)
Allowed(step, answer) ==
  IF "got" \notin DOMAIN step THEN TRUE
  ELSE IF "same" \in DOMAIN step /\ ~ Total /\ (IF "same" \in DOMAIN step THEN step.same # step.got ELSE FALSE) THEN FALSE
  ELSE IF Total THEN IF step.got.ok THEN TRUE ELSE step.got.why # "panic"
  ELSE IF step.got.ok THEN answer = step.got
  ELSE IF answer.ok THEN FALSE
  ELSE /\ step.got.why # "panic"
       /\ step.got.why \in IF answer.why = "either" THEN {"parse", "newmtl"} ELSE {answer.why}

Step ==
  /\ verdict = "open" /\ k < Len(Steps)
  /\ LET step  == Steps[k + 1]
         cs    == Chunks(pend \o Lex(step.t))
         done  == IF cs = <<>> THEN <<>> ELSE [i \in 1..(Len(cs) - 1) |-> ChunkMeaning(cs[i])]
         pend2 == IF cs = <<>> THEN <<>> ELSE cs[Len(cs)]
         bad2  == bad \/ AnyBad(done)
         hl2   == IF bad2 THEN headless ELSE Headless(done, hist, headless)
         ms2   == IF bad2 \/ hl2 THEN ms ELSE After(ms, done)
         hist2 == IF bad2 THEN hist ELSE hist \o done
     IN  /\ k' = k + 1 /\ pend' = pend2 /\ bad' = bad2 /\ headless' = hl2
         /\ ms' = ms2 /\ hist' = hist2
         /\ verdict' = IF ~ Allowed(step, Answer(ms2, pend2, bad2, hist2, hl2)) THEN "rejected"
                       ELSE IF k + 1 = Len(Steps) THEN "accepted" ELSE "open"
  /\ UNCHANGED tr
Spec == Init /\ [][Step]_vars

Properties == Len(hist) <= 12 /\ ~ headless => Good(hist, ms)
Told == verdict # "open" =>
          PrintT(ToJson([trace |-> tr, step |-> k, verdict |-> verdict,
                         want |-> IF verdict = "rejected" THEN Answer(ms, pend, bad, hist, headless) ELSE <<>>]))
Where0 == <<tr, k, verdict>>
=============================================================================

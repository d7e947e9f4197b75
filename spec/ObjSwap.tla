------------------------------ MODULE ObjSwap ------------------------------
(***************************************************************************)
(* Independent statements can be exchanged (C27).  A statement reads and   *)
(* writes parts of the state; two adjacent ones of which neither writes     *)
(* what the other reads or writes may change places.  TLC takes every       *)
(* history of at most Depth lines of an alphabet and exchanges its last two  *)
(* lines, or (Walk) takes random histories of Depth lines and exchanges at   *)
(* random places, Swaps times.                                             *)
(***************************************************************************)
EXTENDS Obj, ObjAlpha, TLC, Json
CONSTANTS Alpha, Depth, Swaps, Walk, Fields

Lines == Alphabets[Alpha]
ASSUME TLCSet(1, TLCEval([i \in DOMAIN Lines |-> Statements(Lex(Chars(Lines[i] \o "{0A}")))[1]]))
Meanings == TLCGet(1)

ElementKinds == {"f", "l", "p"}
Setting(k) == k \in {"usemtl", "usemap", "bevel", "c_interp", "d_interp", "lod"}
Writes(s) ==
  CASE s.k = "g" -> {"context", "groups"} [] s.k = "s" -> {"smoothing"} [] s.k = "o" -> {} [] OTHER -> {s.k}
(* The data a negative reference of an element counts. *)
Counts(s) ==
  CASE s.k = "f" -> UNION {IF s.r[i].v < 0 THEN {"v"} ELSE {} : i \in DOMAIN s.r}
                    \cup UNION {IF s.r[i].t # <<>> /\ (s.r[i].t # <<>> => s.r[i].t[1] < 0) THEN {"vt"} ELSE {} : i \in DOMAIN s.r}
                    \cup UNION {IF s.r[i].n # <<>> /\ (s.r[i].n # <<>> => s.r[i].n[1] < 0) THEN {"vn"} ELSE {} : i \in DOMAIN s.r}
    [] s.k = "l" -> UNION {IF s.r[i].v < 0 THEN {"v"} ELSE {} : i \in DOMAIN s.r}
                    \cup UNION {IF s.r[i].t # <<>> /\ (s.r[i].t # <<>> => s.r[i].t[1] < 0) THEN {"vt"} ELSE {} : i \in DOMAIN s.r}
    [] s.k = "p" -> UNION {IF s.r[i] < 0 THEN {"v"} ELSE {} : i \in DOMAIN s.r}
Reads(s) ==
  CASE s.k \in ElementKinds -> {"context"} \cup (IF s.k = "f" THEN {"smoothing"} ELSE {}) \cup Counts(s)
    [] Setting(s.k)     -> {"context", "groups"}
    [] OTHER            -> {}
Independent(a, b) == /\ Writes(a) \cap (Writes(b) \cup Reads(b)) = {}
                     /\ Writes(b) \cap Reads(a) = {}

VARIABLES hist,  \* the lines as they were first
          now,   \* and as they are by now
          done   \* exchanges tried
vars == <<hist, now, done>>
Choice(h) == IF Walk THEN {RandomElement(IF h = <<0>> THEN {} ELSE DOMAIN Lines)} ELSE DOMAIN Lines
Place(h)  == IF Walk THEN {RandomElement(1..(Len(h) - 1))} ELSE {Len(h) - 1}
Init == hist = <<>> /\ now = <<>> /\ done = 0
Read == /\ done = 0 /\ Len(hist) < Depth
        /\ \E i \in Choice(hist) : hist' = Append(hist, i) /\ now' = Append(now, i)
        /\ UNCHANGED done
Exchange == /\ done < Swaps /\ Len(hist) >= 2 /\ (Walk => Len(hist) = Depth)
            /\ \E i \in Place(now) :
                 IF Independent(Meanings[now[i]], Meanings[now[i + 1]])
                 THEN now' = [now EXCEPT ![i] = now[i + 1], ![i + 1] = now[i]]
                 ELSE Walk /\ UNCHANGED now
            /\ done' = done + 1 /\ UNCHANGED hist
Next == Read \/ Exchange
Spec == Init /\ [][Next]_vars
Due == done = Swaps

After1(h) == After(Model0, [i \in DOMAIN h |-> Meanings[h[i]]])
SameModel == Due => After1(now) = After1(hist)
(* What the context is shows in what comes next. *)
Probe == <<"f -1/-1/-1{0A}", "lod 50{0A}", "l -1{0A}", "bevel on{0A}">>
Told(m) == After(m, [i \in DOMAIN Probe |-> Statements(Lex(Chars(Probe[i])))[1]])
Emit == Due => PrintT(ToJson([ls |-> [i \in DOMAIN now |-> Lines[now[i]] \o "{0A}"] \o Probe, e |-> View(Told(After1(hist)), Fields)]))
Literal(x) == x
=============================================================================

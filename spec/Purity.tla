------------------------------- MODULE Purity -------------------------------
(***************************************************************************)
(* Callers of the library (C21).  Several threads call load_obj and         *)
(* load_mtl; a call is running between its Begin and its End.  What a call  *)
(* returns depends on its text alone, so the machine keeps no state between *)
(* calls: Answers is a table, computed by the specification of the loaders. *)
(*                                                                         *)
(* Every schedule is printed; the library is run along it (a Begin hands    *)
(* the text to the thread, an End waits for its result) and must give the   *)
(* table's answer at every End.                                            *)
(***************************************************************************)
EXTENDS Sizes, Json
CONSTANTS Threads,  \* how many
          Calls,    \* how many calls
          PoolName

O == INSTANCE Obj WITH NumVal <- LAMBDA x : x
M == INSTANCE Mtl WITH NumVal <- LAMBDA x : x

NL == "{0A}"
Ob(pieces) == [kind |-> "obj", p |-> pieces]
Mt(pieces) == [kind |-> "mtl", p |-> pieces]
LongObj(c) == Each(60, LAMBDA i : "v " \o S(i) \o " " \o c \o " 3" \o NL \o "f -1 " \o S(i) \o "/" \o c \o NL \o (IF i % 9 = 0 THEN "g g" \o c \o S(i % 4) \o NL \o "s " \o S(i) \o NL \o "usemtl m" \o c \o NL ELSE ""))
LongMtl(c) == Each(40, LAMBDA i : "newmtl m" \o c \o S(i) \o NL \o "Kd " \o S(i) \o " " \o c \o " 0" \o NL \o "map_Kd -o 1 " \o c \o " f" \o NL)

(* Texts that a leak between calls would mix up: equal lengths and ends,    *)
(* one the beginning of another, settings left open at the end, failures    *)
(* half way, the two kinds, texts that are valid as both or neither.        *)
ObjTexts0 == << Ob(<<"g a" \o NL \o "usemtl m" \o NL \o "s 3" \o NL \o "f 1 2 3" \o NL>>),
                Ob(<<"f 1 2 3" \o NL>>),
                Ob(<<"v 1 2 3" \o NL \o "f -1 4" \o NL>>),
                Ob(<<"v 1 5 3" \o NL \o "f -1 4" \o NL>>),
                Ob(<<"g a" \o NL \o "bevel on" \o NL \o "lod 5" \o NL \o "shadow_obj s" \o NL \o "mtllib m" \o NL \o "f 1" \o NL \o "v 1" \o NL>>),
                Ob(<<"">>), Ob(<<"v 1 2 x" \o NL>>) >>
MtlTexts0 == << Mt(<<"newmtl a" \o NL \o "Kd 1 2 3" \o NL \o "map_Kd -clamp on f" \o NL>>),
                Mt(<<"newmtl a" \o NL \o "Kd 1 5 3" \o NL \o "map_Kd -clamp on f" \o NL>>),
                Mt(<<"newmtl a" \o NL>>),
                Mt(<<"Ns 1" \o NL>>),
                Mt(<<"newmtl a" \o NL \o "newmtl b" \o NL \o "Ns x" \o NL>>) >>
LongOnes  == << Ob(LongObj("1")), Ob(LongObj("2")), Ob(LongObj("1") \o <<"f x" \o NL>>), Mt(LongMtl("1")), Mt(LongMtl("2")), Ob(<<"f 1" \o NL>>) >>
(* Long texts that are nearly the same: equal in length, ends and characters, *)
(* changed in the middle, by one digit, by a swap, by the order of lines.   *)
Pad   == Each(12, LAMBDA i : "vt " \o S(i) \o " 0." \o S(i + 10) \o NL)
AlikeO(mid) == Ob(Pad \o <<"g a" \o NL>> \o mid \o <<"f 1/2/3 4 5" \o NL>> \o Pad)
AlikeM(mid) == Mt(<<"newmtl a" \o NL>> \o Each(12, LAMBDA i : "Ns " \o S(i) \o NL) \o mid \o Each(12, LAMBDA i : "Ni " \o S(i) \o NL))
Alike == << AlikeO(<<"v 1 2 3" \o NL, "v 4 5 6" \o NL>>), AlikeO(<<"v 1 3 2" \o NL, "v 4 5 6" \o NL>>), AlikeO(<<"v 4 5 6" \o NL, "v 1 2 3" \o NL>>), AlikeO(<<"v 1 2 4" \o NL, "v 4 5 5" \o NL>>), AlikeO(<<"v 1 2 3" \o NL, "vn 4 5 6" \o NL>>),
            AlikeM(<<"Kd 1 2 3" \o NL, "Ka 4 5 6" \o NL>>), AlikeM(<<"Ka 1 2 3" \o NL, "Kd 4 5 6" \o NL>>), AlikeM(<<"Kd 1 3 2" \o NL, "Ka 4 5 6" \o NL>>), AlikeM(<<"Kd 2 2 2" \o NL, "Ka 4 5 6" \o NL>>), AlikeM(<<"Kd 4 5 6" \o NL, "Kd 1 2 3" \o NL>>) >>
Pool == CASE PoolName = "alikeObj" -> SubSeq(Alike, 1, 5) [] PoolName = "alikeMtl" -> SubSeq(Alike, 6, 10) [] PoolName = "alike" -> Alike
          [] PoolName = "obj" -> ObjTexts0 [] PoolName = "mtl" -> MtlTexts0
          [] PoolName = "both" -> SubSeq(ObjTexts0, 1, 5) \o MtlTexts0
          [] PoolName = "long" -> LongOnes
          [] PoolName = "few" -> <<ObjTexts0[1], ObjTexts0[2], ObjTexts0[5], MtlTexts0[1], MtlTexts0[5]>>

Answer(x) == IF x.kind = "obj" THEN O!LoadObj(Whole(x.p)) ELSE M!LoadMtl(Whole(x.p))
ASSUME TLCSet(1, TLCEval([i \in DOMAIN Pool |-> Answer(Pool[i])]))
Answers == TLCGet(1)
ASSUME \A i \in DOMAIN Pool : PrintT(ToJson([call |-> i, kind |-> Pool[i].kind, ls |-> Pool[i].p, e |-> Answers[i]]))

VARIABLES running,  \* per thread: the text being loaded, or 0
          got,      \* per thread: what its calls returned (as text numbers)
          events    \* the schedule: <<thread, text>> to begin, <<thread, 0>> to end
vars == <<running, got, events>>
T == 1..Threads
Begun == Cardinality({i \in DOMAIN events : events[i][2] # 0})

Init == running = [t \in T |-> 0] /\ got = [t \in T |-> <<>>] /\ events = <<>>
Begin(t) == /\ running[t] = 0 /\ Begun < Calls
            /\ \A u \in T : u < t => running[u] # 0 \/ got[u] # <<>>   \* threads are alike
            /\ \E x \in DOMAIN Pool : /\ running' = [running EXCEPT ![t] = x]
                                      /\ events' = Append(events, <<t, x>>)
            /\ UNCHANGED got
End(t) == /\ running[t] # 0
          /\ got' = [got EXCEPT ![t] = Append(@, running[t])]
          /\ running' = [running EXCEPT ![t] = 0]
          /\ events' = Append(events, <<t, 0>>)
Next == \E t \in T : Begin(t) \/ End(t)
Spec == Init /\ [][Next]_vars

(* A thread gets the answers of its own texts, in the order it asked. *)
OwnAnswers == \A t \in T :
  LET asked == SelectSeq(events, LAMBDA e : e[1] = t /\ e[2] # 0)
  IN  /\ Len(asked) = Len(got[t]) + (IF running[t] = 0 THEN 0 ELSE 1)
      /\ \A i \in DOMAIN got[t] : Answers[got[t][i]] = Answers[asked[i][2]]
Idle == \A t \in T : running[t] = 0
Emit == (Begun = Calls /\ Idle) => PrintT(ToJson([ev |-> events]))
=============================================================================
